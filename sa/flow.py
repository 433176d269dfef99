"""Path-sensitive-in-events typestate walk.

Follows every control path of a function syntactically (branches, loops, try/except/
finally, with, generators), inlining in-repo callees, and threads a finite typestate
through the events the rule is interested in: calls, stores, deletes, tests.  What a
name stands for is part of the state of a path, a call that is inlined stands for what
it returns on that path, and a test of a name is a test of what it stands for, so that
an alias, a flag or an extracted helper does not hide an event.  Nothing is executed."""
import ast
from .load import Func, Class, Module, dotted

HINTS = {'root': 'AVBFile', 'octx': 'AVBIOContext', 'ictx': 'AVBIOContext', 'create': 'AVBFactory'}
SAFE_CALLS = {'isinstance', 'len', 'hasattr', 'id', 'bool', 'type', 'callable', 'super', 'object', 'repr', 'str', 'set', 'list', 'dict', 'tuple', 'iter'}


class Ev(object):
    """one event: kind in call/store/del/aug/test/iter/yield/raise/return/load/enter/exit"""
    __slots__ = ('kind', 'target', 'value', 'args', 'kw', 'node', 'frame', 'callee', 'truth')

    def __init__(self, kind, target, node, frame, value=None, args=(), kw=None, callee=None, truth=None):
        self.kind = kind
        self.target = target
        self.value = value
        self.args = args
        self.kw = kw or {}
        self.node = node
        self.frame = frame
        self.callee = callee
        self.truth = truth

    @property
    def where(self):
        return "%s:%d" % (self.frame.module.rel, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, show(self.target), self.where)


def show(d):
    if not isinstance(d, tuple):
        return str(d)
    k = d[0]
    if k == 'self':
        return 'self'
    if k in ('param', 'local'):
        return d[1]
    if k == 'attr':
        return show(d[1]) + '.' + d[2]
    if k == 'idx':
        return "%s[%s]" % (show(d[1]), show(d[2]))
    if k == 'const':
        return repr(d[1])
    if k == 'call':
        return "%s(%s)" % (show(d[1]), ", ".join(show(a) for a in d[2]))
    if k in ('class', 'func', 'mod', 'ext', 'glob'):
        return d[1]
    if k == 'elem':
        return "each(%s)" % show(d[1])
    return "<%s>" % k


class Frame(object):
    """one call of a function; what its names stand for is part of the state"""
    count = 0

    def __init__(self, func, module, cls, env, parent=None, yield_handler=None):
        Frame.count += 1
        self.id = Frame.count
        self.func = func
        self.module = module
        self.cls = cls            # dynamic class of this frame's self
        self.rootcls = parent.rootcls if parent else cls    # class ('self',) stands for
        self.selfd = ('self',)    # what this frame's self is, in the terms of the entry function
        self.env = env            # fixed bindings
        self.parent = parent
        self.yield_handler = yield_handler
        self.lex = None           # frame of the enclosing function, for a nested one
        self.depth = parent.depth + 1 if parent else 0
        self.hastry = func is not None and any(isinstance(n, ast.Try) or type(n).__name__ == 'TryStar' for n in ast.walk(func.node))


class St(object):
    """state of a path: the rule's state and what the names stand for"""
    __slots__ = ('c', 'env', 'h')

    def __init__(self, c, env):
        self.c = c
        self.env = env          # frozenset of ((frame id, name), descriptor)
        self.h = hash((c, env))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.h == o.h and self.c == o.c and self.env == o.env

    def get(self, fid, name):
        return dict(self.env).get((fid, name))

    def put(self, pairs):
        e = dict(self.env)
        e.update(pairs)
        return St(self.c, frozenset(e.items()))

    def drop(self, pred):
        """without the bindings that fulfil pred(key)"""
        e = frozenset(x for x in self.env if not pred(x[0]))
        return self if len(e) == len(self.env) else St(self.c, e)

    def at(self, c):
        return self if c == self.c else St(c, self.env)


def assigned_once(node):
    """local name -> value expr for names assigned exactly once, and not in a loop
    with a changing value"""
    if node is None:
        return {}
    count, val = {}, {}

    def targets(t):
        if isinstance(t, ast.Name):
            count[t.id] = count.get(t.id, 0) + 1
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            count[n.name] = count.get(n.name, 0) + 2
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
                if isinstance(t, ast.Name):
                    val[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            targets(n.target)
            if isinstance(n.target, ast.Name):
                val[n.target.id] = n.value
        elif isinstance(n, ast.AugAssign):
            targets(n.target)
            targets(n.target)
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
            val[n.target.id] = n.value
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            targets(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None:
                targets(n.optional_vars)
                if isinstance(n.optional_vars, ast.Name):
                    val[n.optional_vars.id] = n.context_expr
        elif isinstance(n, ast.ExceptHandler) and n.name:
            count[n.name] = count.get(n.name, 0) + 2
        elif isinstance(n, ast.comprehension):
            targets(n.target)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                count[(a.asname or a.name).split('.')[0]] = 2
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for a in n.names:
                count[a] = 99
        stack.extend(ast.iter_child_nodes(n))
    args = getattr(node, 'args', None)
    if args is not None:
        for a in list(args.args) + list(args.kwonlyargs) + list(getattr(args, 'posonlyargs', [])):
            if a.arg in count:
                count[a.arg] += 1
    return {k: v for k, v in val.items() if count[k] == 1}


class Out(object):
    __slots__ = ('n', 'ret', 'exc', 'brk', 'cont')

    def __init__(self, n=()):
        self.n = set(n)
        self.ret = set()
        self.exc = set()
        self.brk = set()
        self.cont = set()

    def take(self, o):
        self.ret |= o.ret
        self.exc |= o.exc
        self.brk |= o.brk
        self.cont |= o.cont
        return self


MAXSTATES = 400


class Flow(object):
    """step(state, ev) -> iterable of next states (or None for "unchanged").
    Events of calls the rule classifies itself are not inlined: opaque(ev) -> True."""

    def __init__(self, prog, step, opaque=None, depth=7):
        self.prog = prog
        self.step = step
        self.opaque = opaque or (lambda ev: False)
        self.maxdepth = depth
        self.inlined = []
        self.ncalls = 0
        self.active = []
        self.nodes = 0
        self.merged = 0

    # -- for rules to override -------------------------------------------------
    def keep(self, c, d):
        """what a name stands for that is given the value d now"""
        return d

    def changed(self, name, op, old, v):
        """what a name stands for after an augmented assignment"""
        new = ('bin', op, old, v)
        if size(new) > 12 or old[0] == 'local':
            return ('local', name) if old[0] != 'local' else old
        return new

    def emit_exc(self, ev, cs):
        """rule states in which a call that raises is left"""
        return cs

    def emit(self, ev, cs):
        out = set()
        for c in cs:
            r = self.step(c, ev)
            if r is None:
                out.add(c)
            else:
                out |= set(r)
        return out

    # -- events ------------------------------------------------------------------
    def ev1(self, st, ev):
        r = self.step(st.c, ev)
        if r is None:
            return (st,)
        return [st.at(c) for c in r]

    def each(self, states, make):
        """the event make(st) happens in every state"""
        out = set()
        for st in states:
            out.update(self.ev1(st, make(st)))
        return out

    # -- descriptors --------------------------------------------------------
    def binding(self, fr, st, name):
        f = fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            if st is not None:
                v = st.get(f.id, name)
                if v is not None:
                    return v
            if local_name(f.func, name):
                return ('local', name)
            f = f.lex
        return None

    def descr(self, fr, n, st=None, depth=0):
        if n is None:
            return ('const', None)
        if depth > 25:
            return ('?',)
        if isinstance(n, ast.Constant):
            return ('const', n.value)
        if isinstance(n, ast.Name):
            v = self.binding(fr, st, n.id)
            if v is not None:
                return v
            return self.of_resolved(self.prog.resolve_name(fr.module, n.id), n.id)
        D = lambda x: self.descr(fr, x, st, depth + 1)
        if isinstance(n, ast.Attribute):
            b = D(n.value)
            if b[0] == 'mod':
                return self.of_resolved(self.prog.resolve_name(b[2], n.attr), n.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + n.attr)
            return ('attr', b, n.attr)
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                return ('slice', D(n.value))
            b, i = D(n.value), D(n.slice)
            if b[0] == 'seq' and i[0] == 'const' and isinstance(i[1], int) and 0 <= i[1] < len(b) - 1 and b[1 + i[1]][0] != 'star':
                return b[1 + i[1]]
            return ('idx', b, i)
        if isinstance(n, ast.Call):
            if st is not None:
                v = st.get(fr.id, ' v%d' % id(n))
                if v is not None:
                    return v
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) in (1, 2) and not n.keywords and isinstance(n.func.value, ast.Dict):
                # looked up in a dictionary that is written out
                t, k = n.func.value, D(n.args[0])
                if k[0] == 'const' and all(isinstance(x, ast.Constant) for x in t.keys):
                    for a, b in zip(t.keys, t.values):
                        if a.value == k[1] and type(a.value) is type(k[1]):
                            return D(b)
                    return D(n.args[1]) if len(n.args) == 2 else ('const', None)
            return ('call', D(n.func), tuple(D(a) for a in n.args))
        if isinstance(n, ast.Starred):
            return ('star', D(n.value))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            return ('cmp', type(n.ops[0]).__name__, D(n.left), D(n.comparators[0]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return ('not', D(n.operand))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, (int, float)):
            return ('const', -n.operand.value)
        if isinstance(n, ast.BoolOp):
            return ('bool', type(n.op).__name__) + tuple(D(v) for v in n.values)
        if isinstance(n, ast.BinOp):
            return ('bin', type(n.op).__name__, D(n.left), D(n.right))
        if isinstance(n, (ast.Tuple, ast.List)):
            return ('seq',) + tuple(D(e) for e in n.elts)
        if isinstance(n, ast.NamedExpr):
            return D(n.value)
        if isinstance(n, ast.IfExp):
            if st is not None:
                v = st.get(fr.id, ' v%d' % id(n))
                if v is not None:
                    return v
            return ('ifexp', D(n.test), D(n.body), D(n.orelse))
        if isinstance(n, ast.Lambda):
            return ('lambda', LambdaRef(n, fr))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            return ('comp', LambdaRef(n, fr))
        return ('expr', type(n).__name__, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))

    def of_resolved(self, r, name):
        if isinstance(r, Class):
            return ('class', r.name, r)
        if isinstance(r, Func):
            return ('func', r.name, r)
        if isinstance(r, Module):
            return ('mod', r.name, r)
        if isinstance(r, tuple):
            if r[0] == 'extmod':
                return ('ext', r[1])
            if r[0] == 'extname':
                return ('ext', r[1] + '.' + r[2])
            if r[0] == 'global':
                return ('glob', r[2], r[1])
        return ('builtin', name)

    def class_of(self, fr, d):
        """class of the object a descriptor stands for, when that is evident"""
        if d == ('self',):
            return fr.rootcls
        if d == fr.selfd and fr.cls is not None:
            return fr.cls
        if d[0] == 'attr' and d[2] in HINTS:
            return self.prog.find_class(HINTS[d[2]])
        if d[0] == 'attr':
            b = self.class_of(fr, d[1])
            if b is not None and HINTS.get(d[2]):
                return self.prog.find_class(HINTS[d[2]])
        if d[0] == 'local' and len(d) > 2:
            return self.class_of(fr, d[2])
        if d[0] == 'call' and d[1][0] == 'class':
            return d[1][2]
        return None

    def callee(self, fr, d):
        """(Func, self descriptor or None, dynamic class) for a callee descriptor"""
        if d[0] == 'func':
            return d[2], None, None
        if d[0] == 'nested':
            return d[2], None, fr.cls
        if d[0] == 'attr':
            b = d[1]
            if b[0] == 'call' and b[1] == ('builtin', 'super'):
                owner = None
                if b[2] and b[2][0][0] == 'class':
                    owner = b[2][0][2]
                elif not b[2]:
                    owner = fr.func.cls if fr.func else None
                if owner is not None and fr.cls is not None:
                    m = fr.cls.find_method(d[2], after=owner)
                    return m, fr.selfd, fr.cls
                return None, None, None
            if b[0] == 'class':
                m = b[2].find_method(d[2])
                if isinstance(m, Func):
                    return m, None, b[2]
                return None, None, None
            c = self.class_of(fr, b)
            if c is not None:
                m = c.find_method(d[2])
                if isinstance(m, Func):
                    return m, b, c
        return None, None, None

    # -- running ------------------------------------------------------------
    def run(self, func, states, cls=None, env=None):
        """exits of the function entered in `states`"""
        fr = Frame(func, func.module, cls if cls is not None else func.cls, dict(env or {}))
        bound = self.bind_params(fr, func, None, None, None)
        bound = {(fr.id, k): v for k, v in bound.items() if k not in fr.env}
        r = self.body(fr, {St(c, frozenset(bound.items())) for c in states})
        o = Out()
        for k in ('n', 'ret', 'exc', 'brk', 'cont'):
            setattr(o, k, {st.c for st in getattr(r, k)})
        return o

    def bind_params(self, fr, func, selfd, args, kw):
        a = func.node.args
        names = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + list(a.args)]
        env = {}
        if func.kind in ('method', 'getter', 'setter', 'deleter') and func.cls is not None and names:
            env[names.pop(0)] = ('self',) if selfd is None else selfd
        elif func.kind == 'class' and names:
            env[names.pop(0)] = ('class', fr.cls.name, fr.cls) if fr.cls else ('cls',)
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        star = args is not None and any(x[0] == 'star' for x in args)
        for i, n in enumerate(names):
            if args is not None and i < len(args) and not star:
                v = args[i]
            elif kw and n in kw:
                v = kw[n]
            elif n in dflt and args is not None and not star:
                v = self.descr(Frame(None, func.module, None, {}), dflt[n])
            else:
                v = ('param', n)
            env[n] = v
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if kw and x.arg in kw:
                env[x.arg] = kw[x.arg]
            elif dv is not None and args is not None:
                env[x.arg] = self.descr(Frame(None, func.module, None, {}), dv)
            else:
                env[x.arg] = ('param', x.arg)
        if a.vararg:
            env[a.vararg.arg] = ('local', a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('local', a.kwarg.arg)
        return env

    def body(self, fr, states):
        node = fr.func.node
        self.active.append(node)
        try:
            if isinstance(node, ast.Lambda):
                o = Out()
                st = self.expr(fr, node.body, states, o)
                o.ret = self.each(st, lambda s: Ev('return', self.descr(fr, node.body, s), node, fr))
                o.ret = {s.put({(fr.id, ' ret'): self.descr(fr, node.body, s)}) for s in o.ret}
                return o
            o = self.block(fr, node.body, set(states), frozenset())
        finally:
            self.active.pop()
        return o

    def block(self, fr, stmts, states, live):
        out = Out(states)
        for i, s in enumerate(stmts):
            if not out.n:
                break
            lv = live
            if live is not None:
                for x in stmts[i + 1:]:
                    lv = lv | loads(x)
            o = self.stmt(fr, s, out.n, lv)
            out.take(o)
            if not fr.hastry:
                out.exc = {st.drop(lambda k: k[0] == fr.id) for st in out.exc}
            fid = fr.id
            out.n = {st.drop(lambda k: k[0] == fid and (k[1][:2] == ' v' or lv is not None and k[1][0] != ' ' and k[1] not in lv)) for st in o.n}
            if len(out.n) > MAXSTATES:
                out.n = self.merge(out.n)
        return out

    def merge(self, states):
        """forget what the names stand for where paths in the same rule state disagree"""
        self.merged += 1
        by = {}
        for st in states:
            by.setdefault(st.c, []).append(st)
        out = set()
        for c, l in by.items():
            common = l[0].env
            for st in l[1:]:
                common = common & st.env
            keys = {k for k, _ in common}
            gone = {k for st in l for k, _ in st.env if k not in keys}
            out.add(St(c, common | frozenset((k, ('local', k[1])) for k in gone if k[1][0] != ' ')))
        return out

    def stmt(self, fr, s, states, live):
        self.nodes += 1
        o = Out()
        if isinstance(s, ast.Expr):
            o.n = self.expr(fr, s.value, states, o)
        elif isinstance(s, ast.Assign):
            st = self.expr(fr, s.value, states, o)
            for t in s.targets:
                st = self.store(fr, t, lambda x: self.descr(fr, s.value, x), st, o, s.value)
            o.n = st
        elif isinstance(s, ast.AnnAssign):
            st = states
            if s.value is not None:
                st = self.expr(fr, s.value, st, o)
                st = self.store(fr, s.target, lambda x: self.descr(fr, s.value, x), st, o, s.value)
            o.n = st
        elif isinstance(s, ast.AugAssign):
            st = self.expr(fr, s.value, states, o)
            if isinstance(s.target, ast.Name):
                nm = s.target.id
                out = set()
                for x in st:
                    old, v = self.descr(fr, s.target, x), self.descr(fr, s.value, x)
                    new = self.changed(nm, type(s.op).__name__, old, v)
                    for y in self.ev1(x, Ev('aug', ('local', nm), s, fr, value=v)):
                        out.add(y.put({(self.home(fr, nm), nm): new}))
                o.n = out
            else:
                st = self.expr(fr, s.target.value, st, o)
                if isinstance(s.target, ast.Subscript):
                    st = self.expr(fr, s.target.slice, st, o)
                o.n = self.each(st, lambda x: Ev('aug', self.descr(fr, s.target, x), s, fr, value=self.descr(fr, s.value, x)))
        elif isinstance(s, ast.Delete):
            st = states
            for t in s.targets:
                o.exc |= st
                st = self.each(st, lambda x: Ev('del', self.descr(fr, t, x), s, fr))
            o.n = st
        elif isinstance(s, ast.Return):
            st = self.expr(fr, s.value, states, o) if s.value is not None else states
            st = self.each(st, lambda x: Ev('return', self.descr(fr, s.value, x), s, fr))
            o.ret |= {x.put({(fr.id, ' ret'): self.impure_as(fr, s.value, self.descr(fr, s.value, x), 'result')}) for x in st}
        elif isinstance(s, ast.Raise):
            st = states
            if s.exc is not None:
                st = self.expr(fr, s.exc, st, o)
            o.exc |= self.each(st, lambda x: Ev('raise', self.descr(fr, s.exc, x), s, fr))
        elif isinstance(s, ast.Assert):
            st, f = self.test(fr, s.test, states, o)
            o.exc |= self.each(f, lambda x: Ev('raise', ('const', 'assert'), s, fr))
            o.n = st
        elif isinstance(s, ast.If):
            t, f = self.test(fr, s.test, states, o)
            a = self.block(fr, s.body, t, live) if t else Out()
            b = self.block(fr, s.orelse, f, live) if f else Out()
            o.take(a).take(b)
            o.n = a.n | b.n
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop_for(fr, s, states, o, live)
        elif isinstance(s, ast.While):
            self.loop_while(fr, s, states, o, live)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            self.with_(fr, s, states, o, live)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            self.try_(fr, s, states, o, live)
        elif isinstance(s, ast.Break):
            o.brk |= states
        elif isinstance(s, ast.Continue):
            o.cont |= states
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(s, fr.module, None, 'func', fr.func)
            k = id(s)
            if k not in _nested:
                _nested[k] = f
            o.n = {x.put({(fr.id, s.name): ('nested', s.name, _nested[k])}) for x in states}
        else:
            o.n = states
        return o

    def home(self, fr, name):
        """frame the name belongs to (nonlocal)"""
        f = fr
        while f is not None:
            if local_name(f.func, name) and not declared_nonlocal(f.func, name):
                return f.id
            f = f.lex
        return fr.id

    def impure_as(self, fr, node, v, name):
        """a value made by a call stands for one particular object"""
        if v[0] in ('call', 'seq', 'expr', 'comp') and (node is None or impure(node) or v[0] == 'expr'):
            return ('local', name, v)
        return v

    def bind(self, fr, name, v, node=None):
        if isinstance(node, ast.IfExp) and v[0] == 'call':
            v = ('local', name, v)
        return self.impure_as(fr, node, v, name) if node is not None else v

    def store(self, fr, t, val, states, o, node=None):
        """val(st): the value that is stored"""
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(node.elts) + list(t.elts)):
                    if i == 0:
                        # all values are taken before the first name changes
                        states = {x.put({(fr.id, ' p%d' % k): self.descr(fr, y, x) for k, y in enumerate(node.elts)}) for x in states}
                    states = self.store(fr, e, lambda x, i=i: x.get(fr.id, ' p%d' % i), states, o, node.elts[i])
                else:
                    def part(x, i=i):
                        v = val(x)
                        w = v
                        if w[0] == 'seq' and len(w) == len(t.elts) + 1 and not any(isinstance(y, ast.Starred) for y in t.elts) and not any(y[0] == 'star' for y in w[1:]):
                            return w[1 + i]
                        return ('item', v, i)
                    states = self.store(fr, e, part, states, o)
            return {x.drop(lambda k: k[0] == fr.id and k[1][:2] == ' p') for x in states}
        if isinstance(t, ast.Starred):
            return self.store(fr, t.value, lambda x: ('item', val(x), '*'), states, o)
        out = set()
        if isinstance(t, ast.Name):
            hid = self.home(fr, t.id)
            for x in states:
                v = val(x)
                for y in self.ev1(x, Ev('store', ('local', t.id), t, fr, value=v)):
                    out.add(y.put({(hid, t.id): self.bind(fr, t.id, self.keep(y.c, v), node)}))
            return out
        if isinstance(t, ast.Attribute):
            states = self.expr(fr, t.value, states, o)
            # property setter / __setattr__ are not followed: the store is the event
            return self.each(states, lambda x: Ev('store', self.descr(fr, t, x), t, fr, value=val(x)))
        if isinstance(t, ast.Subscript):
            states = self.expr(fr, t.value, states, o)
            states = self.expr(fr, t.slice, states, o)
            o.exc |= states
            return self.each(states, lambda x: Ev('store', self.descr(fr, t, x), t, fr, value=val(x)))
        return states

    # -- tests ----------------------------------------------------------------
    def test(self, fr, n, states, o):
        """(states where n is true, states where it is false)"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.test(fr, n.operand, states, o)
            return f, t
        if isinstance(n, ast.BoolOp):
            if isinstance(n.op, ast.And):
                fs = set()
                cur = states
                for v in n.values:
                    t, f = self.test(fr, v, cur, o)
                    fs |= f
                    cur = t
                return cur, fs
            ts = set()
            cur = states
            for v in n.values:
                t, f = self.test(fr, v, cur, o)
                ts |= t
                cur = f
            return ts, cur
        if isinstance(n, ast.IfExp):
            t, f = self.test(fr, n.test, states, o)
            a, b = self.test(fr, n.body, t, o) if t else (set(), set())
            c, d = self.test(fr, n.orelse, f, o) if f else (set(), set())
            return a | c, b | d
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and self.binding(fr, None, n.func.id) is None:
            if n.func.id == 'bool':
                return self.test(fr, n.args[0], states, o)
            if n.func.id in ('any', 'all') and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1:
                return self.quantified(fr, n, n.args[0], n.func.id == 'any', states, o)
        st = self.expr(fr, n, states, o)
        if isinstance(n, ast.Constant):
            return (st, set()) if n.value else (set(), st)
        ts, fs = set(), set()
        for x in st:
            d = self.descr(fr, n, x)
            if isinstance(n, ast.Name) and d[0] == 'local' and len(d) > 2:
                d = d[2]
            t, f = self.decide(fr, d, n, {x}, o)
            ts |= t
            fs |= f
        return ts, fs

    def decide(self, fr, d, n, states, o):
        """tests of what d stands for"""
        k = d[0]
        if k == 'const':
            return (states, set()) if d[1] else (set(), states)
        if k == 'not':
            t, f = self.decide(fr, d[1], n, states, o)
            return f, t
        if k == 'bool':
            ts, fs = set(), set()
            cur = states
            for v in d[2:]:
                t, f = self.decide(fr, v, n, cur, o) if cur else (set(), set())
                if d[1] == 'And':
                    fs |= f
                    cur = t
                else:
                    ts |= t
                    cur = f
            return (cur, fs) if d[1] == 'And' else (ts, cur)
        if k == 'ifexp':
            t, f = self.decide(fr, d[1], n, states, o)
            a, b = self.decide(fr, d[2], n, t, o) if t else (set(), set())
            c, e = self.decide(fr, d[3], n, f, o) if f else (set(), set())
            return a | c, b | e
        if k == 'call' and d[1] == ('builtin', 'bool') and len(d[2]) == 1:
            return self.decide(fr, d[2][0], n, states, o)
        if k == 'local' and len(d) > 2 and d[2][0] == 'comp':
            d = d[2]
            k = 'comp'
        if k == 'comp' and len(d[1].node.generators) == 1:
            # a filtered list is not empty if one element passes
            return self.quantified(d[1].frame, n, d[1].node, True, states, o, member=True)
        if k == 'call' and d[1] in (('builtin', 'any'), ('builtin', 'all')) and len(d[2]) == 1 and strip(d[2][0])[0] == 'comp' and len(strip(d[2][0])[1].node.generators) == 1:
            ref = strip(d[2][0])[1]
            return self.quantified(ref.frame, n, ref.node, d[1][1] == 'any', states, o)
        if k == 'cmp' and d[1] in ('Is', 'IsNot', 'Eq', 'NotEq') and d[3] == ('const', None):
            w = strip(d[2])
            if w[0] == 'call' and w[1] == ('builtin', 'next') and len(w[2]) == 2 and w[2][1] == ('const', None) and strip(w[2][0])[0] == 'comp' \
                    and len(strip(w[2][0])[1].node.generators) == 1:
                ref = strip(w[2][0])[1]
                t, f = self.quantified(ref.frame, n, ref.node, True, states, o, member=True)
                return (f, t) if d[1] in ('Is', 'Eq') else (t, f)
        r = settled(d)
        if r is not None:
            return (states, set()) if r else (set(), states)
        return (self.each(states, lambda x: Ev('test', d, n, fr, truth=True)),
                self.each(states, lambda x: Ev('test', d, n, fr, truth=False)))

    def quantified(self, fr, n, g, some, states, o, member=False):
        """any(...) and all(...), and whether a list made by a comprehension has an element"""
        gen = g.generators[0]
        test = ast.copy_location(ast.Constant(True), n) if member else g.elt
        if not some:
            test = ast.copy_location(ast.UnaryOp(ast.Not(), test), n)
        body = [ast.copy_location(ast.If(test=test, body=[ast.copy_location(ast.Break(), n)], orelse=[]), n)]
        for c in reversed(gen.ifs):
            body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), n)]
        key = (id(g), some, member)
        if key not in _loops:
            loop = ast.copy_location(ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[]), n)
            _loops[key] = (g, loop)
        states = self.shield(fr, gen.target, states)
        lo = Out()
        found = (set(), set())
        self.loop_for(fr, _loops[key][1], states, lo, None, found=found)
        o.exc |= lo.exc
        broke = self.unshield(fr, gen.target, found[0])
        done = self.unshield(fr, gen.target, found[1])
        return (broke, done) if some else (done, broke)

    def shield(self, fr, target, states):
        """the names of a comprehension are its own"""
        out = set()
        for st in states:
            p = {}
            for nm in names_in(target):
                v = st.get(fr.id, nm)
                p[(fr.id, ' s' + nm)] = v if v is not None else ('gone',)
            out.add(st.put(p))
        return out

    def unshield(self, fr, target, states):
        out = set()
        for st in states:
            e = dict(st.env)
            for nm in names_in(target):
                v = e.pop((fr.id, ' s' + nm), None)
                e.pop((fr.id, nm), None)
                if v is not None and v != ('gone',):
                    e[(fr.id, nm)] = v
            out.add(St(st.c, frozenset(e.items())))
        return out

    # -- expressions ----------------------------------------------------------
    def expr(self, fr, n, states, o):
        """evaluate for effects; returns states after; exceptional states go to o.exc"""
        if n is None or not states or isinstance(n, (ast.Constant, ast.Name, ast.Lambda)):
            return states
        if isinstance(n, ast.Call):
            return self.call(fr, n, states, o)
        if isinstance(n, ast.BoolOp):
            cur = states
            res = set()
            for i, v in enumerate(n.values):
                cur = self.expr(fr, v, cur, o)
                res |= cur
            return res
        if isinstance(n, ast.IfExp):
            t, f = self.test(fr, n.test, states, o)
            out = set()
            for side, x in ((n.body, t), (n.orelse, f)):
                for y in self.expr(fr, side, x, o):
                    out.add(y.put({(fr.id, ' v%d' % id(n)): self.descr(fr, side, y)}))
            return out
        if isinstance(n, ast.Attribute):
            st = self.expr(fr, n.value, states, o)
            if not isinstance(n.ctx, ast.Load):
                return st
            out = set()
            groups = {}
            for x in st:
                b = self.descr(fr, n.value, x)
                c = self.class_of(fr, b)
                p = c.find_property(n.attr) if c is not None else None
                if isinstance(p, Func) and not self.opaque(Ev('load', ('attr', b, n.attr), n, fr)):
                    groups.setdefault((b, c, p), set()).add(x)
                else:
                    out.update(self.ev1(x, Ev('load', ('attr', b, n.attr), n, fr)))
            for (b, c, p), g in groups.items():
                out |= self.inline(fr, p, b, c, (), {}, g, o, n)
            return out
        if isinstance(n, ast.Subscript):
            st = self.expr(fr, n.value, states, o)
            st = self.expr(fr, n.slice, st, o)
            o.exc |= st
            return self.each(st, lambda x: Ev('load', self.descr(fr, n, x), n, fr))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(fr, n, states, o)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            st = self.expr(fr, n.value, states, o) if n.value is not None else states
            if fr.yield_handler is not None and isinstance(n, ast.Yield):
                return fr.yield_handler(n.value, st, o, fr)
            if isinstance(n, ast.YieldFrom):
                st = self.each(st, lambda x: Ev('iter', self.descr(fr, n.value, x), n, fr))
            st = self.each(st, lambda x: Ev('yield', self.descr(fr, n.value, x), n, fr))
            o.exc |= st
            return st
        if isinstance(n, ast.NamedExpr):
            st = self.expr(fr, n.value, states, o)
            return self.store(fr, n.target, lambda x: self.descr(fr, n.value, x), st, o, n.value)
        st = states
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                st = self.expr(fr, c, st, o)
            elif isinstance(c, ast.keyword):
                st = self.expr(fr, c.value, st, o)
        return st

    def quiet_comp(self, fr, n):
        """a comprehension that only looks at the elements: what it found is asked when it is tested"""
        return False

    def comp(self, fr, n, states, o):
        st = states
        saved = []
        for i, g in enumerate(n.generators):
            st = self.expr(fr, g.iter, st, o)
            st = self.each(st, lambda x: Ev('iter', self.descr(fr, g.iter, x), n, fr))
            st = self.shield(fr, g.target, st)
            saved.append(g)
            st = {self.bind_target(fr, g.target, ('elem', self.descr(fr, g.iter, x)), x) for x in st}
        if not self.quiet_comp(fr, n):
            cur = set(st)
            for _ in range(4):
                x = cur
                for g in n.generators:
                    for c in g.ifs:
                        x, _f = self.test(fr, c, x, o)
                if isinstance(n, ast.DictComp):
                    x = self.expr(fr, n.key, x, o)
                    x = self.expr(fr, n.value, x, o)
                else:
                    x = self.expr(fr, n.elt, x, o)
                x = {y.drop(lambda k: k[1][:2] == ' v') for y in x}
                if x <= cur:
                    break
                cur |= x
            st = cur
        for g in reversed(saved):
            st = self.unshield(fr, g.target, st)
        return st

    def bind_target(self, fr, t, v, st):
        if isinstance(t, ast.Name):
            return st.put({(fr.id, t.id): v})
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                w = v[1 + i] if v[0] == 'seq' and len(v) == len(t.elts) + 1 else ('item', v, i)
                st = self.bind_target(fr, e, w, st)
        elif isinstance(t, ast.Starred):
            st = self.bind_target(fr, t.value, ('item', v, '*'), st)
        return st

    def call(self, fr, n, states, o):
        self.ncalls += 1
        st = states
        if isinstance(n.func, ast.Attribute):
            if not (isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super'):
                st = self.expr(fr, n.func.value, st, o)
        elif not isinstance(n.func, ast.Name):
            st = self.expr(fr, n.func, st, o)
        for a in n.args:
            st = self.expr(fr, a.value if isinstance(a, ast.Starred) else a, st, o)
        for k in n.keywords:
            st = self.expr(fr, k.value, st, o)
        out = set()
        groups = {}
        for x in st:
            d = self.descr(fr, n.func, x)
            args = tuple(self.descr(fr, a, x) for a in n.args)
            kw = tuple((k.arg, self.descr(fr, k.value, x)) for k in n.keywords if k.arg)
            groups.setdefault((d, args, kw), set()).add(x)
        for (d, args, kw), g in groups.items():
            out |= self.call1(fr, n, d, args, dict(kw), g, o)
        return out

    def call1(self, fr, n, d, args, kw, st, o):
        if d[0] == 'local' and len(d) > 2:
            d = d[2]
        if d[0] == 'lambda':
            ref = d[1]
            if ref.node not in self.active and fr.depth < self.maxdepth:
                return self.inline(fr, ref.func(self), None, fr.cls, args, kw, st, o, n)
        f, selfd, cls = self.callee(fr, d)
        ev = Ev('call', d, n, fr, args=args, kw=kw, callee=f if isinstance(f, Func) else None)
        if isinstance(f, Func) and not self.opaque(ev) and fr.depth < self.maxdepth and f.node not in self.active \
                and not any(a[0] == 'star' for a in args):
            if not is_generator(f.node):
                if selfd is None and f.kind == 'method' and f.cls is not None and d[0] == 'attr' and d[1][0] == 'class' and args:
                    selfd, args = args[0], args[1:]
                    if selfd == ('self',) and fr.cls is not None:
                        cls = fr.cls
                    else:
                        cls = self.class_of(fr, selfd) or f.cls
                return self.inline(fr, f, selfd, cls, args, kw, st, o, n)
            return self.each(st, lambda x: ev)
        if not (d[0] == 'builtin' and d[1] in SAFE_CALLS):
            for x in st:
                o.exc |= {x.at(c) for c in self.emit_exc(ev, {x.c})}
        return self.each(st, lambda x: ev)

    def inline(self, fr, f, selfd, cls, args, kw, states, o, at):
        nf = Frame(f, f.module, cls if cls is not None else f.cls, {}, fr)
        nf.selfd = selfd if selfd is not None else fr.selfd
        if f.parent is not None:        # nested function: sees the enclosing names
            x = fr
            while x is not None and (x.func is None or x.func.node is not f.parent.node):
                x = x.parent
            nf.lex = x
        env = self.bind_params(nf, f, nf.selfd, args, kw)
        env = {(nf.id, k): v for k, v in env.items()}
        if f.qual not in self.inlined:
            self.inlined.append(f.qual)
        r = self.body(nf, {x.put(env) for x in states})
        o.exc |= {x.drop(lambda k: k[0] == nf.id) for x in r.exc}
        out = set()
        key = (fr.id, ' v%d' % id(at))
        for x in r.n | r.ret:
            v = x.get(nf.id, ' ret')
            x = x.drop(lambda k: k[0] == nf.id)
            if isinstance(at, ast.Call):
                if v is None:
                    v = ('const', None)
                v = outward(v, nf.func)
                if v is not None and size(v) <= 40:
                    x = x.put({key: v})
            out.add(x)
        return out

    # -- compound statements ---------------------------------------------------
    def lazy(self, fr, n, st):
        """(target, iterable, conditions, element) of an iterable that is itself a loop over another one"""
        if isinstance(n, ast.Name) and st is not None:
            d = self.binding(fr, st, n.id)
            if d is None:
                return None
            if d[0] == 'local' and len(d) > 2:
                d = d[2]
            if d[0] != 'comp' or d[1].frame is not fr:
                return None
            n = d[1].node
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('iter', 'list', 'tuple') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            n = n.args[0]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'filter' and len(n.args) == 2 and isinstance(n.args[0], ast.Lambda) \
                and len(n.args[0].args.args) == 1:
            a = n.args[0].args.args[0].arg
            return ast.Name(a, ast.Store()), n.args[1], [n.args[0].body], ast.copy_location(ast.Name(a, ast.Load()), n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('map', 'filter') and len(n.args) == 2 \
                and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Lambda)):
            a = ' item'
            load = lambda: ast.copy_location(ast.Name(a, ast.Load()), n)
            call = ast.copy_location(ast.Call(func=n.args[0], args=[load()], keywords=[]), n)
            return ast.copy_location(ast.Name(a, ast.Store()), n), n.args[1], [call] if n.func.id == 'filter' else [], load() if n.func.id == 'filter' else call
        if isinstance(n, (ast.GeneratorExp, ast.ListComp)) and len(n.generators) == 1:
            g = n.generators[0]
            if isinstance(n, ast.ListComp) and any(isinstance(x, (ast.In, ast.NotIn, ast.Call)) for c in g.ifs for x in ast.walk(c)):
                return None         # looked at before the loop starts
            return g.target, g.iter, g.ifs, n.elt
        return None

    def loop_for(self, fr, s, states, o, live, found=None):
        groups = {}
        for x in states:
            key = None
            if isinstance(s.iter, ast.Name):
                d = self.binding(fr, x, s.iter.id)
                while d is not None and d[0] == 'local' and len(d) > 2:
                    d = d[2]
                key = d if d is not None and d[0] in ('comp', 'call') else None
            groups.setdefault(key, set()).add(x)
        for key, g in groups.items():
            self.loop1(fr, s, g, o, live, found)

    def loop1(self, fr, s, states, o, live, found):
        lz = self.lazy(fr, s.iter, next(iter(states)))
        target, conds, elt, loop = s.target, (), None, s
        if lz is not None:
            key = ('lazy', id(s), id(lz[1]))
            if key not in _loops:
                _loops[key] = (s, ast.copy_location(ast.For(target=s.target, iter=lz[1], body=s.body, orelse=s.orelse), s), lz)
            s, lz = _loops[key][1:]
            target, conds, elt = lz[0], lz[2], lz[3]
        if live is not None:
            live = live | loads(loop) | loads(s)
        if lz is not None and live is not None:
            for c in list(conds) + [elt]:
                live = live | loads(c)
            live = live | names_in(target)
        brk = set()

        def picked(cur, v, oo):
            """States that enter the body, states that pass it over"""
            cur = {self.bind_target(fr, target, v(x), x) for x in cur}
            out = set()
            for c in conds:
                cur, f = self.test(fr, c, cur, oo)
                out |= f
            if elt is not None:
                cur = self.expr(fr, elt, cur, oo)
                cur = {self.bind_target(fr, loop.target, self.descr(fr, elt, x), x) for x in cur}
            cur = {x.drop(lambda k: k[0] == fr.id and k[1][:2] == ' v') for x in cur}
            return cur, out

        def one(cur, v):
            x, passed = picked(cur, v, o)
            b = self.block(fr, s.body, x, live) if x else Out()
            o.ret |= b.ret
            o.exc |= b.exc
            brk.update(b.brk)
            return b.n | b.cont | passed
        done = set()
        rest = states
        if isinstance(s.iter, ast.Call):
            st = set(states)
            for a in s.iter.args:
                st = self.expr(fr, a.value if isinstance(a, ast.Starred) else a, st, o)
            rest = set()
            groups = {}
            for x in st:
                d = self.descr(fr, s.iter.func, x)
                f, selfd, cls = self.callee(fr, d)
                g = None
                if isinstance(f, Func) and is_generator(f.node) and f.node not in self.active and fr.depth < self.maxdepth:
                    args = tuple(self.descr(fr, a, x) for a in s.iter.args)
                    kw = tuple((k.arg, self.descr(fr, k.value, x)) for k in s.iter.keywords if k.arg)
                    if not self.opaque(Ev('call', d, s.iter, fr, args=args, kw=dict(kw), callee=f)):
                        g = (f, selfd, cls, args, kw)
                if g is None:
                    rest.add(x)
                else:
                    groups.setdefault(g, set()).add(x)
            if rest:
                rest = rest if not groups else {x for x in states if x in rest} or rest
            for (f, selfd, cls, args, kw), g in groups.items():
                done |= self.generated(fr, s, f, selfd, cls, args, dict(kw), g, o, picked, brk, live)
            if not groups:
                rest = states
        if rest:
            st = self.expr(fr, s.iter, rest, o)
            o.exc |= st
            short = {}
            other = set()
            for x in st:
                d = self.descr(fr, s.iter, x)
                w = strip(d)
                n = None
                if d[0] == 'seq' and len(w) <= 9 and not any(e[0] == 'star' for e in w[1:]):
                    n = w[1:]
                elif w[0] == 'call' and w[1] == ('builtin', 'range') and len(w[2]) == 1 and w[2][0][0] == 'const' and isinstance(w[2][0][1], int) and 0 <= w[2][0][1] <= 4:
                    n = tuple(('const', i) for i in range(w[2][0][1]))
                if n is not None:
                    short.setdefault((d, n), set()).add(x)
                else:
                    other.add(x)
            for (d, n), cur in short.items():
                cur = self.each(cur, lambda x: Ev('iter', d, s, fr))
                for e in n:
                    cur = self.each(cur, lambda x: Ev('store', ('loopvar', d), s, fr, value=e))
                    cur = one(cur, lambda x: e)
                done |= self.each(cur, lambda x: Ev('loopend', d, s, fr))
            if other:
                key = (fr.id, ' i%d' % id(s))
                other = {x.put({key: self.descr(fr, s.iter, x)}) for x in other}
                other = {x.drop(lambda k: k[0] == fr.id and k[1][:2] == ' v') for x in other}
                it = lambda x: x.get(*key)
                cur = self.each(other, lambda x: Ev('iter', it(x), s, fr))
                moving = stored(s) | {y for y in names_in(target)}
                for i in range(14):
                    x = self.each(cur, lambda y: Ev('store', ('loopvar', it(y)), s, fr, value=('elem', it(y))))
                    nxt = cur | self.widen(fr, one(x, lambda y: ('elem', it(y))), moving, i, live)
                    if nxt == cur:
                        break
                    cur = nxt
                cur = self.each(cur, lambda x: Ev('loopend', it(x), s, fr))
                drop = lambda k: k == key
                done |= {x.drop(drop) for x in cur}
                brk2 = {x.drop(drop) for x in brk}
                brk.clear()
                brk.update(brk2)
                o.ret = {x.drop(drop) for x in o.ret}
                o.exc = {x.drop(drop) for x in o.exc}
        if found is not None:
            found[0].update(brk)
            found[1].update(done)
        e = self.block(fr, s.orelse, done, live)
        o.take(e)
        o.n = o.n | e.n | brk

    def generated(self, fr, s, f, selfd, cls, args, kw, states, o, picked, brk, live):
        """the loop body runs where the generator yields"""
        nf = Frame(f, f.module, cls if cls is not None else f.cls, {}, fr)
        ret = set()

        def handler(node, cur, oo, at):
            cur, passed = picked(cur, lambda x: self.descr(nf, node, x), oo)
            b = self.block(fr, s.body, cur, live) if cur else Out()
            ret.update(b.ret)
            oo.exc |= b.exc
            brk.update(b.brk)
            return b.n | b.cont | passed
        nf.yield_handler = handler
        nf.selfd = selfd if selfd is not None else fr.selfd
        if f.parent is not None:
            nf.lex = fr
        env = {(nf.id, k): v for k, v in self.bind_params(nf, f, nf.selfd, args, kw).items()}
        if f.qual not in self.inlined:
            self.inlined.append(f.qual)
        r = self.body(nf, {x.put(env) for x in states})
        out = lambda l: {x.drop(lambda k: k[0] == nf.id) for x in l}
        o.exc |= out(r.exc)
        o.ret |= out(ret)
        b = out(brk)
        brk.clear()
        brk.update(b)
        return out(r.n | r.ret)

    def widen(self, fr, states, names, i, live):
        """states at the end of a pass, as they start the next one"""
        out = set()
        for x in states:
            p = {}
            for (fid, nm), v in x.env:
                if nm in names and fid == fr.id:
                    if i >= 6 and v != ('local', nm) or v[0] == 'bin' or size(v) > 12:
                        p[(fid, nm)] = ('local', nm)
            out.add(x.put(p) if p else x)
        return out if len(out) <= MAXSTATES else self.merge(out)

    def loop_while(self, fr, s, states, o, live):
        cur = set(states)
        brk = set()
        done = set()
        live = live | loads(s) if live is not None else None
        moving = stored(s)
        for i in range(14):
            t, f = self.test(fr, s.test, cur, o)
            done |= f
            b = self.block(fr, s.body, t, live)
            o.ret |= b.ret
            o.exc |= b.exc
            brk |= b.brk
            nxt = cur | self.widen(fr, b.n | b.cont, moving, i, live)
            if nxt == cur:
                break
            cur = nxt
        e = self.block(fr, s.orelse, done, live)
        o.take(e)
        o.n = e.n | brk

    def with_(self, fr, s, states, o, live):
        st = states
        quiet = False
        keys = []
        for it in s.items:
            st = self.expr(fr, it.context_expr, st, o)
            key = (fr.id, ' w%d' % id(it))
            keys.append((key, it))
            st = {x.put({key: self.descr(fr, it.context_expr, x)}) for x in st}
            quiet = quiet or any(str(show(x.get(*key)[1])).endswith('suppress') for x in st if x.get(*key)[0] == 'call')
            st = self.each(st, lambda x: Ev('enter', x.get(*key), it.context_expr, fr))
            if it.optional_vars is not None:
                def val(x, key=key):
                    v = x.get(*key)
                    nm = getattr(it.optional_vars, 'id', None)
                    return ('local', nm, v) if nm and v[0] == 'call' else v
                st = self.store(fr, it.optional_vars, lambda x: x.get(*key), st, o, it.context_expr)
        b = self.block(fr, s.body, st, live)
        for key, it in reversed(keys):
            ex = lambda x: Ev('exit', x.get(*key) or ('?',), it.context_expr, fr)
            for k in ('n', 'ret', 'exc', 'brk', 'cont'):
                setattr(b, k, {x.drop(lambda q: q == key) for x in self.each(getattr(b, k), ex)})
        if quiet:
            b.n = b.n | b.exc
        o.take(b)
        o.n = b.n

    def try_(self, fr, s, states, o, live):
        hl = live
        if live is not None:
            for x in s.handlers + s.finalbody + s.orelse:
                hl = hl | loads(x)
        b = self.block(fr, s.body, states, hl)
        exc = {x.drop(lambda k: k[0] == fr.id and k[1][:2] == ' v') for x in b.exc}
        if len(exc) > MAXSTATES:
            exc = self.merge(exc)
        res = Out()
        res.ret |= b.ret
        res.brk |= b.brk
        res.cont |= b.cont
        n = set(b.n)
        if s.orelse:
            e = self.block(fr, s.orelse, b.n, hl)
            res.take(e)
            n = e.n
        caught_all = False
        for h in s.handlers:
            names = handler_names(h)
            entry = self.each(exc, lambda x: Ev('catch', ('const', tuple(names)), h, fr))
            if h.name:
                entry = {x.put({(fr.id, h.name): ('local', h.name)}) for x in entry}
            hb = self.block(fr, h.body, entry, hl) if exc else Out()
            res.take(hb)
            n |= hb.n
            if names is None or not names or any(x in ('Exception', 'BaseException') for x in names):
                caught_all = True
        if not caught_all:
            res.exc |= exc
        if s.finalbody:
            fin = Out()

            def through(st):
                if not st:
                    return set()
                f = self.block(fr, s.finalbody, st, live)
                fin.take(f)
                return f.n
            n = through(n)
            ret = through(res.ret)
            ex = through(res.exc)
            brk = through(res.brk)
            cont = through(res.cont)
            res = Out()
            res.ret, res.exc, res.brk, res.cont = ret, ex, brk, cont
            res.take(fin)
        o.take(res)
        o.n = n


_nested = {}
_loops = {}


class LambdaRef(object):
    """a lambda or comprehension and where it was made; equal when it is the same expression"""
    def __init__(self, node, frame):
        self.node = node
        self.frame = frame

    def __eq__(self, o):
        return isinstance(o, LambdaRef) and o.node is self.node and o.frame.id == self.frame.id

    def __hash__(self):
        return hash((id(self.node), self.frame.id))

    def func(self, flow):
        k = ('lambda', id(self.node))
        if k not in _nested:
            _nested[k] = Func(self.node, self.frame.module, None, 'func', self.frame.func)
        return _nested[k]


def settled(d):
    """truth of a comparison of constants"""
    if d[0] == 'cmp' and d[2][0] == 'const' and d[3][0] == 'const':
        a, b = d[2][1], d[3][1]
        try:
            if d[1] == 'Is':
                return a is b if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) else None
            if d[1] == 'IsNot':
                return a is not b if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) else None
            if d[1] == 'Eq':
                return a == b
            if d[1] == 'NotEq':
                return a != b
            if d[1] in ('Lt', 'Gt', 'LtE', 'GtE'):
                return {'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[d[1]]
        except TypeError:
            return None
    if d[0] == 'cmp' and d[1] in ('Is', 'IsNot') and strip(d[2]) == strip(d[3]) and strip(d[2])[0] in ('param', 'self'):
        return d[1] == 'Is'
    if d[0] == 'cmp' and d[1] in ('Is', 'IsNot') and d[3] == ('const', None):
        x = d[2]
        y = strip(x)
        if y[0] == 'call' and y[1] in (('builtin', 'open'), ('ext', 'open'), ('ext', 'io.open')):
            return d[1] == 'IsNot'      # open() never returns None
        if x == ('self',) or x[0] in ('seq', 'func', 'nested', 'class', 'lambda') or x[0] == 'local' and len(x) > 2 and x[2][0] == 'seq':
            return d[1] == 'IsNot'
    return None


def strip(d):
    while d[0] == 'local' and len(d) > 2:
        d = d[2]
    return d


def size(d):
    if not isinstance(d, tuple):
        return 0
    return 1 + sum(size(x) for x in d if isinstance(x, tuple))


def outward(v, func):
    """what a returned value is to the caller; None when it means nothing there"""
    if v[0] == 'local' and len(v) == 2:
        return None
    return v


_loads = {}


def loads(n):
    """names that are looked at in n"""
    if n is None:
        return frozenset()
    k = id(n)
    if k not in _loads:
        s = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                s.add(x.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                s.add(x.target.id)
        _loads[k] = (n, frozenset(s))
    return _loads[k][1]


def stored(n):
    s = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            s.add(x.id)
    return s


def names_in(t):
    return frozenset(x.id for x in ast.walk(t) if isinstance(x, ast.Name))


def declared_nonlocal(func, name):
    return func is not None and any(isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names for x in ast.walk(func.node))


def handler_names(h):
    if h.type is None:
        return ()
    if isinstance(h.type, ast.Tuple):
        return tuple((dotted(e) or '?').split('.')[-1] for e in h.type.elts)
    return ((dotted(h.type) or '?').split('.')[-1],)


def is_generator(node):
    stack = list(getattr(node, 'body', []))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


_locals = {}


def local_name(func, name):
    if func is None:
        return False
    node = func.node
    k = id(node)
    if k not in _locals:
        s = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s.add(n.id)
            elif isinstance(n, ast.arg):
                s.add(n.arg)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.add(n.name)
        _locals[k] = (node, s)
    return name in _locals[k][1]


def reassigned(node, name):
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
    return False


def impure(v):
    """the value is made by a call, so the name stands for one particular object"""
    return isinstance(v, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp))
