"""Abstract interpretation over a finite shape domain.

Values are constants, opaque atoms ("some int", "some UUID"), and nodes of an abstract
object graph (instances, lists, dicts) with identity.  Function bodies are interpreted
from the syntax tree; a test the domain does not decide splits the run.  What cannot be
represented becomes Unknown, which makes the result of the run undecided.  Nothing of
the repository is imported or executed."""
import ast
import operator
from fractions import Fraction
from .load import Func, Class, Module, dotted, fold

MAXSTEPS = 60000
MAXRUNS = 96


class Stop(Exception):
    """interpretation cannot go on; the run decides nothing"""


class Budget(Stop):
    pass


class PyRaise(Exception):
    def __init__(self, name, text='', value=None, where=''):
        Exception.__init__(self, name)
        self.name = name
        self.text = text
        self.value = value
        self.where = where


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class V(object):
    pass


class K(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


NONE = K(None)
NOTIMPL = None


class Atom(V):
    """some value of a kind; copies remember what they are a copy of"""
    n = 0

    def __init__(self, kind, label='', mutable=False, of=None, truth=None):
        Atom.n += 1
        self.id = Atom.n
        self.kind = kind
        self.label = label
        self.mutable = mutable
        self.of = of
        self.truth = truth

    def origin(self):
        a = self
        while a.of is not None:
            a = a.of
        return a

    def __repr__(self):
        return "<%s %s#%d>" % (self.kind, self.label, self.id)


class Lin(Atom):
    """a number that is a sum of open ones: {name: factor} and a constant"""

    def __init__(self, parts, const=0, kind='int'):
        Atom.__init__(self, kind, '+'.join('%s%s' % ('' if c == 1 else '%s*' % (c if isinstance(c, int) else '%g' % float(c)), n) for n, c in sorted(parts.items()))
                      + ('%+g' % float(const) if const else ''))
        self.parts = dict(parts)
        self.const = const


def lin(v):
    if isinstance(v, Lin):
        return v.parts, v.const
    if isinstance(v, K) and isinstance(v.v, int):
        return {}, int(v.v)
    if isinstance(v, K) and isinstance(v.v, float) and v.v - v.v == 0:
        return {}, Fraction(v.v)
    return None


def linear(op, a, b):
    """a op b as a sum, None when it is none"""
    x, y = lin(a), lin(b)
    if x is None or y is None:
        return None
    real = op == 'Div' or any(v.kind == 'float' if isinstance(v, Lin) else isinstance(v.v, float) for v in (a, b))
    if op in ('Add', 'Sub'):
        k = 1 if op == 'Add' else -1
        p = dict(x[0])
        for n, c in y[0].items():
            p[n] = p.get(n, 0) + k * c
        c = x[1] + k * y[1]
    elif op == 'Mult' and (not x[0] or not y[0]):
        k, z = (x[1], y) if not x[0] else (y[1], x)
        p = {n: c * k for n, c in z[0].items()}
        c = z[1] * k
    elif op == 'Div' and not y[0] and y[1]:
        p = {n: Fraction(c) / y[1] for n, c in x[0].items()}
        c = Fraction(x[1]) / y[1]
    else:
        return None
    p = {n: c for n, c in p.items() if c}
    return Lin(p, c, 'float' if real else 'int') if p else K(float(c) if real else c)


class Unknown(V):
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<? %s>" % self.why


class Inst(V):
    """a node of the object graph"""
    n = 0

    def __init__(self, cls, kind=None, label=''):
        Inst.n += 1
        self.id = Inst.n
        self.cls = cls            # Class or None
        self.kind = kind          # builtin payload: 'list', 'dict', 'set', 'tuple' or None
        self.attrs = {}
        self.lst = [] if kind in ('list', 'set', 'tuple') else None
        self.dct = {} if kind == 'dict' else None     # key -> (keyV, valV)
        self.label = label
        self.of = None

    @property
    def mutable(self):
        return self.kind != 'tuple' or self.cls is not None

    def __repr__(self):
        return "<%s#%d%s>" % (self.cls.name if self.cls else self.kind, self.id, ' ' + self.label if self.label else '')


class FuncV(V):
    def __init__(self, f, selfv=None, closure=None, dyn=None):
        self.f = f
        self.selfv = selfv
        self.closure = closure
        self.dyn = dyn


class LambdaV(V):
    def __init__(self, node, env, module):
        self.node, self.env, self.module = node, env, module


class ClassV(V):
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "<class %s>" % self.c.name


class ModV(V):
    def __init__(self, m):
        self.m = m


class Builtin(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<builtin %s>" % self.name


class Ext(V):
    def __init__(self, name):
        self.name = name


class Bound(V):
    """builtin method of a builtin payload"""
    def __init__(self, base, name):
        self.base, self.name = base, name


class SuperV(V):
    def __init__(self, owner, selfv, dyn):
        self.owner, self.selfv, self.dyn = owner, selfv, dyn


class Partial(V):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class GenV(V):
    def __init__(self, items):
        self.items = items
        self.pos = 0


BUILTINS = {'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'len', 'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int',
            'float', 'bytes', 'bytearray', 'sorted', 'reversed', 'enumerate', 'zip', 'range', 'iter', 'next', 'id', 'type', 'print', 'repr',
            'bool', 'min', 'max', 'sum', 'abs', 'any', 'all', 'super', 'object', 'callable', 'map', 'filter', 'property', 'round', 'ord', 'chr', 'hash', 'pow', 'divmod', 'format', 'hex', 'vars', 'delattr', 'slice'}
EXC_BASES = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
             'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'UnicodeError': 'ValueError', 'OSError': 'Exception', 'IOError': 'Exception'}
PYTYPES = {'int': int, 'str': str, 'bytes': bytes, 'float': float, 'bool': bool, 'bytearray': bytearray, 'tuple': tuple, 'list': list, 'dict': dict, 'unicode': str, 'long': int, 'basestring': str, 'object': object, 'slice': slice}


def exc_match(name, handler):
    if handler in ('Exception', 'BaseException'):
        return True
    while name is not None:
        if name == handler:
            return True
        name = EXC_BASES.get(name)
    return False


class Shapes(object):
    """interpreter for one program"""

    def __init__(self, prog):
        self.prog = prog
        self.globals = {}
        self.classattrs = {}
        self.steps = 0
        self.maxsteps = MAXSTEPS
        self.decisions = []       # replayed choices
        self.taken = []           # choices made in this run
        self.memo = {}
        self.events = []
        self.depth = 0
        self.registered = False
        self.unknowns = []
        self.hook_call = None     # (interp, callee, args, kw) -> V or None

    # -- runs ------------------------------------------------------------------
    def runs(self, action, limit=MAXRUNS):
        """action() once per way of deciding the undecided tests, a generator of (outcome, value, choices);
        outcome: 'ok', 'raise' (PyRaise), 'stop' (Stop)"""
        done = 0
        stack = [[]]
        while stack:
            if done >= limit:
                yield ('stop', Stop('too many cases'), [])
                return
            done += 1
            self.decisions = stack.pop()
            self.taken = []
            self.memo = {}
            self.steps = 0
            self.depth = 0
            self.unknowns = []
            self.events = []
            try:
                r = ('ok', action(), list(self.taken))
            except PyRaise as e:
                r = ('raise', e, list(self.taken))
            except Stop as e:
                r = ('stop', e, list(self.taken))
            except (Ret, Brk, Cnt):
                r = ('stop', Stop('control flow'), list(self.taken))
            except RecursionError:
                r = ('stop', Stop('recursion'), list(self.taken))
            for i in range(len(self.decisions), len(self.taken)):
                if self.taken[i][1] is True:
                    stack.append([t[1] for t in self.taken[:i]] + [False])
            # the state of the interpreter is that of this run until the next is asked for
            yield r

    def choose(self, key):
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        v = self.decisions[i] if i < len(self.decisions) else True
        self.taken.append((key, v))
        self.memo[key] = v
        if len(self.taken) > 60:
            raise Stop('too many undecided tests')
        return v

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('no end in sight')

    # -- registry ----------------------------------------------------------------
    def register_all(self):
        """run the registration decorators of every class"""
        if self.registered:
            return
        self.registered = True
        for m in self.prog.all_modules():
            for c in sorted(m.classes.values(), key=lambda c: c.node.lineno):
                for d in reversed(c.node.decorator_list):
                    dn = dotted(d)
                    if dn and dn.split('.')[-1].startswith('register'):
                        f = self.prog.resolve_expr(m, d)
                        if isinstance(f, Func):
                            self.call_func(f, [ClassV(c)], {})
            for s in m.tree.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                    d = dotted(s.value.func)
                    if d and d.split('.')[-1].startswith('register'):
                        self.eval(s.value, Env(m, {}, None))
        self.steps = 0

    # -- names ---------------------------------------------------------------------
    def name(self, env, n):
        e = env
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return self.module_name(env.module, n)

    def module_name(self, m, n):
        r = self.prog.resolve_name(m, n)
        return self.resolved(r, n)

    def resolved(self, r, n):
        if isinstance(r, Class):
            return ClassV(r)
        if isinstance(r, Func):
            return FuncV(r)
        if isinstance(r, Module):
            return ModV(r)
        if isinstance(r, tuple):
            if r[0] == 'extmod':
                return Ext(r[1])
            if r[0] == 'extname':
                return Ext(r[1] + '.' + r[2])
            if r[0] == 'global':
                return self.glob(r[1], r[2])
        if n in ('True', 'False', 'None'):
            return K({'True': True, 'False': False, 'None': None}[n])
        if n in BUILTINS:
            return Builtin(n)
        if n.endswith('Error') or n in ('Exception', 'BaseException', 'StopIteration', 'NotImplemented', 'KeyboardInterrupt'):
            return Builtin(n)
        return Unknown('name %s' % n)

    def glob(self, m, n):
        k = (m.name, n)
        if k in self.globals:
            return self.globals[k]
        self.globals[k] = Unknown('global %s' % n)
        env = Env(m, {}, None)
        v = None

        def scan(stmts):
            nonlocal v
            for s in stmts:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and t.id == n:
                            v = self.eval(s.value, env)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == n and s.value is not None:
                    v = self.eval(s.value, env)
                elif isinstance(s, ast.If):
                    if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
                        scan(s.body if self.truth(self.eval(s.test, env)) else s.orelse)
                elif isinstance(s, ast.Try):
                    scan(s.body)
                elif isinstance(s, ast.For):
                    if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(s)):
                        e2 = Env(m, {n: v} if v is not None else {}, None)
                        try:
                            self.stmt(s, e2)
                        except PyRaise:
                            pass
                        v = e2.vars.get(n, v)
        scan(m.tree.body)
        self.globals[k] = v if v is not None else Unknown('global %s' % n)
        return self.globals[k]

    # -- truth -----------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Inst):
            if v.cls is not None:
                for nm in ('__bool__', '__nonzero__', '__len__'):
                    m = v.cls.find_method(nm)
                    if isinstance(m, Func):
                        return self.truth(self.call_func(m, [v], {}))
            if v.lst is not None:
                return bool(v.lst)
            if v.dct is not None:
                return bool(v.dct)
            return True
        if isinstance(v, Atom):
            if v.truth is not None:
                return v.truth
            return self.choose(('truth', v.origin().id))
        if isinstance(v, (ClassV, FuncV, LambdaV, ModV, Builtin, Bound, Partial, Ext)):
            return True
        if isinstance(v, GenV):
            return True
        self.unknowns.append(v)
        return self.choose(('unknown', len(self.taken)))

    # -- attributes --------------------------------------------------------------------
    def getattr(self, b, name, where=''):
        self.tick()
        if isinstance(b, Inst):
            c = b.cls
            if c is not None:
                p = c.find_property(name)
                if isinstance(p, Func):
                    try:
                        return self.call_func(p, [b], {})
                    except PyRaise as e:
                        if e.name != 'AttributeError':
                            raise
                        g = c.find_method('__getattr__')
                        if isinstance(g, Func):
                            return self.call_func(g, [b, K(name)], {})
                        raise
            if name in b.attrs:
                return b.attrs[name]
            if name == '__class__':
                return ClassV(c) if c is not None else Builtin(b.kind)
            if name == '__dict__':
                return Unknown('__dict__')
            if c is not None:
                m = c.find_method(name)
                if isinstance(m, Func):
                    if m.kind == 'static':
                        return FuncV(m)
                    if m.kind == 'class':
                        return FuncV(m, ClassV(c), dyn=c)
                    return FuncV(m, b, dyn=c)
                a = self.classattr(c, name)
                if isinstance(a, FuncV) and a.selfv is None:
                    return FuncV(a.f, b, closure=a.closure, dyn=c)
                if isinstance(a, LambdaV):
                    return Partial(a, [b], {})
                if a is not None:
                    return a
                if isinstance(m, tuple) and m[1] != 'object':
                    return Bound(b, name)
                g = c.find_method('__getattr__')
                if isinstance(g, Func):
                    return self.call_func(g, [b, K(name)], {})
                if b.kind and hasattr(PYTYPES.get(b.kind, object), name):
                    return Bound(b, name)
                if isinstance(m, tuple):
                    return Bound(b, name)
                if any(not isinstance(x, Class) and x.split('.')[-1] not in ('object', 'list', 'dict', 'OrderedDict') for x in c.mro()):
                    return Unknown('attribute %s of an external base' % name)
                raise PyRaise('AttributeError', '%s has no attribute %s' % (c.name, name), where=where)
            t = PYTYPES.get(b.kind)
            if b.kind == 'dict' and name == 'move_to_end' or t is not None and hasattr(t, name) or b.kind == 'set' and hasattr(set, name):
                return Bound(b, name)
            raise PyRaise('AttributeError', '%s has no attribute %s' % (b.kind, name), where=where)
        if isinstance(b, ClassV):
            if name == '__name__':
                return K(b.c.name)
            if name == '__module__':
                return K(b.c.module.name)
            if name == '__new__':
                m = b.c.find_method('__new__')
                if isinstance(m, Func):
                    return FuncV(m, None, dyn=b.c)
                return Bound(b, '__new__')
            m = b.c.find_method(name)
            if isinstance(m, Func):
                if m.kind == 'class':
                    return FuncV(m, b, dyn=b.c)
                return FuncV(m, None, dyn=b.c)
            a = self.classattr(b.c, name)
            if a is not None:
                return a
            if isinstance(m, tuple):
                return Bound(b, name)
            raise PyRaise('AttributeError', 'class %s has no attribute %s' % (b.c.name, name), where=where)
        if isinstance(b, ModV):
            r = self.prog.resolve_name(b.m, name)
            if r is None:
                raise PyRaise('AttributeError', 'module %s has no %s' % (b.m.name, name), where=where)
            return self.resolved(r, name)
        if isinstance(b, SuperV):
            c = b.dyn
            m = c.find_method(name, after=b.owner) if c is not None else None
            if isinstance(m, Func):
                if m.kind == 'static' or name == '__new__':
                    return FuncV(m, None, dyn=c)
                return FuncV(m, b.selfv, dyn=c)
            if isinstance(m, tuple) or name in ('__init__', '__new__', '__setattr__', '__getattribute__', '__repr__', '__eq__', '__hash__'):
                return Bound(('super', b.selfv), name)
            return Unknown('super().%s' % name)
        if isinstance(b, K):
            if b.v is None:
                if name in ('__class__', '__doc__', '__repr__', '__eq__', '__hash__', '__ne__', '__str__', '__setattr__'):
                    return Bound(b, name)
                raise PyRaise('AttributeError', 'None has no attribute %s' % name, where=where)
            if hasattr(b.v, name):
                return Bound(b, name)
            raise PyRaise('AttributeError', '%s has no attribute %s' % (type(b.v).__name__, name), where=where)
        if isinstance(b, Atom):
            t = PYTYPES.get(b.kind)
            if t is not None:
                if hasattr(t, name):
                    return Bound(b, name)
                raise PyRaise('AttributeError', '%s has no attribute %s' % (b.kind, name), where=where)
            if b.kind in EXT_ATTRS:
                if name in EXT_ATTRS[b.kind]:
                    return Bound(b, name)
                if name in ('class_id', 'property_data', 'root', 'copy', 'instance_id', 'value', 'mob', 'components'):
                    raise PyRaise('AttributeError', '%s has no attribute %s' % (b.kind, name), where=where)
            return Bound(b, name)
        if isinstance(b, Ext):
            n = b.name + '.' + name
            if n == 'sys.version_info.major':
                return K(3)
            return Ext(n)
        if isinstance(b, (FuncV, LambdaV, Builtin, Partial, Bound)):
            if isinstance(b, Builtin) and name == '__new__':
                return Bound(b, name)
            if name == '__name__' and isinstance(b, Builtin):
                return K(b.name)
            return Bound(b, name)
        if isinstance(b, GenV):
            return Bound(b, name)
        return Unknown('attribute %s' % name)

    def classattr(self, c, name):
        a = c.find_assign(name)
        if a is None:
            for x in c.mro():
                if isinstance(x, Class) and (x, name) in self.classattrs:
                    return self.classattrs[(x, name)]
            return None
        node, owner = a
        for x in c.mro():
            if (x, name) in self.classattrs:
                return self.classattrs[(x, name)]
            if x is owner:
                break
        self.classattrs[(owner, name)] = Unknown('recursive class attribute')
        ev = Env(owner.module, {}, None)
        ev.classbody = owner
        # names of the class body are visible
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in owner.assigns and n.id != name:
                ev.vars[n.id] = self.classattr(owner, n.id)
        v = self.eval(node, ev)
        self.classattrs[(owner, name)] = v
        return v

    def setattr(self, b, name, v, raw=False):
        self.tick()
        if isinstance(b, Inst):
            if b.cls is not None and not raw:
                m = b.cls.find_method('__setattr__')
                if isinstance(m, Func):
                    self.call_func(m, [b, K(name), v], {})
                    return
            if b.cls is not None:
                p = b.cls.find_setter(name)
                if isinstance(p, Func):
                    self.call_func(p, [b, v], {})
                    return
                if isinstance(b.cls.find_property(name), Func):
                    raise PyRaise('AttributeError', "can't set %s" % name)
            elif b.kind:
                raise PyRaise('AttributeError', 'builtin has no %s' % name)
            self.event('setattr', b, name, v)
            b.attrs[name] = v
            return
        if isinstance(b, ClassV):
            self.classattrs[(b.c, name)] = v
            return
        if isinstance(b, (Unknown, Atom)):
            return
        if isinstance(b, K):
            raise PyRaise('AttributeError', 'constant')
        raise Stop('attribute store on %r' % (b,))

    def event(self, *a):
        self.events.append(a)

    # -- calls ------------------------------------------------------------------------
    def call_func(self, f, args, kw, closure=None, dyn=None):
        self.tick()
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Budget('call depth')
        try:
            env = Env(f.module, {}, closure)
            env.func = f
            env.cls = f.cls
            env.dyn = dyn
            self.bind(f.node.args, args, kw, env, f)
            gen = is_gen(f.node)
            if gen:
                env.yields = []
            try:
                self.block(f.node.body, env)
                r = NONE
            except Ret as e:
                r = e.v
            if gen:
                return GenV(env.yields)
            return r
        finally:
            self.depth -= 1

    def bind(self, a, args, kw, env, f):
        names = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + list(a.args)]
        kw = dict(kw)
        args = list(args)
        fname = getattr(f, 'name', '<lambda>')
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', '%s() takes %d arguments but %d were given' % (fname, len(names), len(args)))
        for n, v in zip(names, args):
            if n in kw:
                raise PyRaise('TypeError', '%s() got multiple values for argument %s' % (fname, n))
            env.vars[n] = v
        if a.vararg is not None:
            t = Inst(None, 'tuple')
            t.lst = list(args[len(names):])
            env.vars[a.vararg.arg] = t
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        dflt = dict(zip(dn, a.defaults))
        missing = []
        for n in names[len(args):]:
            if n in kw:
                env.vars[n] = kw.pop(n)
            elif n in dflt:
                env.vars[n] = self.default(f, dflt[n], env)
            else:
                missing.append(n)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env.vars[x.arg] = self.default(f, d, env)
            else:
                missing.append(x.arg)
        if missing:
            raise PyRaise('TypeError', '%s() is missing %s' % (fname, ', '.join(missing)))
        if a.kwarg is not None:
            d = Inst(None, 'dict')
            for k, v in kw.items():
                d.dct[('k', k)] = (K(k), v)
            env.vars[a.kwarg.arg] = d
        elif kw:
            raise PyRaise('TypeError', '%s() got an unexpected argument %s' % (fname, ', '.join(kw)))

    def default(self, f, node, env):
        """a default is evaluated once"""
        k = ('default', id(node))
        if k not in self.globals:
            self.globals[k] = self.eval(node, Env(env.module, {}, None))
        return self.globals[k]

    def call(self, f, args, kw, node=None, env=None):
        self.tick()
        if self.hook_call is not None:
            r = self.hook_call(self, f, args, kw)
            if r is not None:
                return r
        if isinstance(f, FuncV):
            if f.selfv is not None:
                args = [f.selfv] + list(args)
            return self.call_func(f.f, args, kw, f.closure, f.dyn)
        if isinstance(f, LambdaV):
            e = Env(f.module, {}, f.env)
            self.bind(f.node.args, args, kw, e, f.node)
            return self.eval(f.node.body, e)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, node, env)
        if isinstance(f, ClassV):
            return self.instantiate(f.c, args, kw)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw, node, env)
        if isinstance(f, Bound):
            return self.bound(f.base, f.name, args, kw)
        if isinstance(f, Ext):
            return self.external(f.name, args, kw)
        if isinstance(f, Inst):
            if f.cls is not None:
                m = f.cls.find_method('__call__')
                if isinstance(m, Func):
                    return self.call_func(m, [f] + list(args), kw)
            raise PyRaise('TypeError', 'not callable')
        if isinstance(f, K):
            raise PyRaise('TypeError', 'not callable: %r' % (f.v,))
        return Unknown('call of %r' % (f,))

    def instantiate(self, c, args, kw):
        m = c.find_method('__new__')
        if isinstance(m, Func):
            o = self.call_func(m, [ClassV(c)] + list(args), kw, dyn=c)
        else:
            o = self.new(c)
        if isinstance(o, Inst):
            i = c.find_method('__init__')
            if isinstance(i, Func):
                self.call_func(i, [o] + list(args), kw, dyn=c)
            elif o.lst is not None and args:
                o.lst.extend(self.iterate(args[0]))
            elif (args or kw) and not isinstance(m, Func) and not any(not isinstance(x, Class) and x != 'object' for x in c.mro()):
                raise PyRaise('TypeError', '%s() takes no arguments' % c.name)
        return o

    def new(self, c):
        kind = None
        for x in c.mro():
            if not isinstance(x, Class):
                s = x.split('.')[-1]
                if s == 'list':
                    kind = 'list'
                elif s in ('dict', 'OrderedDict', 'WeakValueDictionary'):
                    kind = 'dict'
        return Inst(c, kind)

    # -- statements ----------------------------------------------------------------------
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.tick()
        t = type(s)
        if t is ast.Expr:
            self.eval(s.value, env)
        elif t is ast.Assign:
            v = self.eval(s.value, env)
            for x in s.targets:
                self.assign(x, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env), env)
        elif t is ast.AugAssign:
            cur = self.eval(as_load(s.target), env)
            v = self.eval(s.value, env)
            if isinstance(cur, Inst) and isinstance(s.op, ast.Add) and cur.kind == 'list':
                m = cur.cls.find_method('__iadd__') if cur.cls is not None else None
                if isinstance(m, Func):
                    r = self.call_func(m, [cur, v], {})
                else:
                    self.event('mutate', cur)
                    cur.lst.extend(self.iterate(v))
                    r = cur
            elif isinstance(cur, Inst) and isinstance(s.op, ast.Mult) and cur.kind == 'list':
                m = cur.cls.find_method('__imul__') if cur.cls is not None else None
                r = self.call_func(m, [cur, v], {}) if isinstance(m, Func) else self.list_method(cur, '__imul__', [v], {}, True)
            else:
                r = self.binop(type(s.op).__name__, cur, v)
            self.assign(s.target, r, env)
        elif t is ast.Return:
            raise Ret(self.eval(s.value, env) if s.value is not None else NONE)
        elif t is ast.If:
            if self.truth(self.eval(s.test, env)):
                self.block(s.body, env)
            else:
                self.block(s.orelse, env)
        elif t is ast.For:
            items = self.iterate(self.eval(s.iter, env), lazy=True)
            brk = False
            for v in items:
                self.tick()
                self.assign(s.target, v, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    brk = True
                    break
                except Cnt:
                    continue
            if not brk:
                self.block(s.orelse, env)
        elif t is ast.While:
            n = 0
            brk = False
            while self.truth(self.eval(s.test, env)):
                n += 1
                if n > 400:
                    raise Budget('loop at line %d does not end' % s.lineno)
                try:
                    self.block(s.body, env)
                except Brk:
                    brk = True
                    break
                except Cnt:
                    continue
            if not brk:
                self.block(s.orelse, env)
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cnt()
        elif t is ast.Pass or t is ast.Import or t is ast.ImportFrom or t is ast.Global or t is ast.Nonlocal:
            if t is ast.Nonlocal:
                env.nonlocals.update(s.names)
        elif t is ast.Raise:
            where = "%s:%d" % (env.module.rel, s.lineno)
            if s.exc is None:
                if env.caught is not None:
                    raise env.caught
                raise PyRaise('RuntimeError', 'no active exception', where=where)
            e = s.exc
            name = None
            if isinstance(e, ast.Call):
                name = dotted(e.func)
                val = self.eval(e, env)
            else:
                name = dotted(e)
                val = self.eval(e, env)
                if isinstance(val, Inst) and val.cls is not None:
                    name = val.cls.name
                if isinstance(val, Atom) and isinstance(e, ast.Name) and env.caught is not None and e.id not in ('Exception',):
                    raise env.caught
            raise PyRaise((name or 'Exception').split('.')[-1], '', val, where)
        elif t is ast.Assert:
            if not self.truth(self.eval(s.test, env)):
                raise PyRaise('AssertionError', '', where="%s:%d" % (env.module.rel, s.lineno))
        elif t is ast.Try:
            self.try_(s, env)
        elif t is ast.With:
            for it in s.items:
                v = self.eval(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            self.block(s.body, env)
        elif t is ast.FunctionDef:
            env.vars[s.name] = FuncV(Func(s, env.module, None, 'func', env.func), None, env)
        elif t is ast.Delete:
            for x in s.targets:
                self.delete(x, env)
        elif t is ast.ClassDef:
            env.vars[s.name] = Unknown('local class')
        else:
            raise Stop('statement %s' % t.__name__)

    def try_(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is not None:
                        names = [(dotted(x) or '?').split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if not names or any(exc_match(e.name, n) for n in names):
                        if h.name:
                            env.vars[h.name] = Atom('exception', e.name, truth=True)
                        saved, env.caught = env.caught, e
                        try:
                            self.block(h.body, env)
                        finally:
                            env.caught = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            env.vars.pop(t.id, None)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, env)
            if isinstance(b, Inst):
                b.attrs.pop(t.attr, None)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.call(self.getattr(b, '__delitem__'), [k], {})

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                if e is not None:
                    e.vars[t.id] = v
                    return
            env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, env)
            if isinstance(t.slice, ast.Slice):
                self.setslice(b, t.slice, v, env)
                return
            k = self.eval(t.slice, env)
            self.setitem(b, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v)) if not isinstance(v, Unknown) else [Unknown('item')] * len(t.elts)
            if isinstance(v, Atom):
                items = [Atom('?', 'item of ' + v.label) for _ in t.elts]
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                l = Inst(None, 'list')
                l.lst = items[i:len(items) - k]
                items = items[:i] + [l] + items[len(items) - k:]
                elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            else:
                elts = t.elts
                if len(items) != len(elts):
                    raise PyRaise('ValueError', 'unpack')
            for e, x in zip(elts, items):
                self.assign(e, x, env)
        else:
            raise Stop('assignment target')

    def setslice(self, b, sl, v, env):
        if isinstance(b, Inst) and b.lst is not None:
            if b.cls is not None:
                m = b.cls.find_method('__setitem__')
                if isinstance(m, Func):
                    self.call_func(m, [b, self.eval(sl, env), v], {})
                    return
            lo = self.eval(sl.lower, env) if sl.lower else NONE
            hi = self.eval(sl.upper, env) if sl.upper else NONE
            if isinstance(lo, K) and isinstance(hi, K):
                b.lst[slice(lo.v, hi.v)] = list(self.iterate(v))
                self.event('mutate', b)
                return
        if isinstance(b, (Unknown, Atom)):
            return
        raise Stop('slice store')

    def setitem(self, b, k, v):
        if isinstance(b, Inst):
            if b.cls is not None:
                m = b.cls.find_method('__setitem__')
                if isinstance(m, Func):
                    self.call_func(m, [b, k, v], {})
                    return
            self.raw_setitem(b, k, v)
            return
        if isinstance(b, (Unknown, Atom)):
            return
        raise PyRaise('TypeError', 'item assignment')

    def raw_setitem(self, b, k, v):
        self.event('mutate', b)
        if b.dct is not None:
            b.dct[self.key(k)] = (k, v)
        elif b.lst is not None:
            if isinstance(k, K) and isinstance(k.v, int):
                try:
                    b.lst[k.v] = v
                except IndexError:
                    raise PyRaise('IndexError')
            elif isinstance(k, K) and isinstance(k.v, slice):
                b.lst[k.v] = list(self.iterate(v))
            elif isinstance(k, SliceV):
                b.lst[k.lo:k.hi] = list(self.iterate(v))
            elif b.lst:
                b.lst[0] = v
        else:
            raise PyRaise('TypeError', 'item assignment')

    def key(self, k):
        if isinstance(k, K):
            try:
                hash(k.v)
            except TypeError:
                raise PyRaise('TypeError', 'unhashable')
            return ('k', type(k.v).__name__ if isinstance(k.v, (bytes,)) else '', k.v)
        if isinstance(k, Inst) and k.kind == 'tuple':
            return ('t',) + tuple(self.key(x) for x in k.lst)
        if isinstance(k, Atom):
            return ('a', k.origin().id)
        if isinstance(k, ClassV):
            return ('c', k.c.qual)
        if isinstance(k, Inst):
            if k.cls is None and k.kind in ('list', 'dict', 'set'):
                raise PyRaise('TypeError', 'unhashable')
            h = getattr(k, 'hashlabel', None)
            return ('h', h) if h is not None else ('i', k.id)
        return ('?', id(k))

    # -- iteration ---------------------------------------------------------------------------
    def iterate(self, v, lazy=False):
        self.tick()
        if isinstance(v, Inst):
            if v.cls is not None:
                m = v.cls.find_method('__iter__')
                if isinstance(m, Func):
                    return self.iterate(self.call_func(m, [v], {}))
            if v.lst is not None:
                if lazy and v.kind == 'list':
                    return LiveList(v)
                return list(v.lst)
            if v.dct is not None:
                return [k for k, _ in v.dct.values()]
            raise PyRaise('TypeError', 'not iterable')
        if isinstance(v, GenV):
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes, tuple, range)):
                return [K(x) for x in v.v]
            if isinstance(v.v, (set, frozenset)):
                return [K(x) for x in sorted(v.v, key=repr)]
            raise PyRaise('TypeError', 'not iterable')
        if isinstance(v, Atom):
            if v.kind in ('int', 'float', 'bool', 'UUID', 'datetime'):
                raise PyRaise('TypeError', 'not iterable')
            return [Atom('int' if v.kind in ('bytes', 'bytearray') else 'str' if v.kind == 'str' else '?', 'element of ' + v.label)]
        if isinstance(v, Unknown):
            self.unknowns.append(v)
            return []
        raise PyRaise('TypeError', 'not iterable')

    # -- expressions ---------------------------------------------------------------------------
    def eval(self, n, env):
        self.tick()
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            return Unknown(type(n).__name__)
        return m(n, env)

    def x_Constant(self, n, env):
        return K(n.value)

    def x_Name(self, n, env):
        return self.name(env, n.id)

    def x_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr, "%s:%d" % (env.module.rel, n.lineno))

    def x_Tuple(self, n, env):
        t = Inst(None, 'tuple')
        t.lst = self.elements(n.elts, env)
        if all(isinstance(x, K) for x in t.lst):
            try:
                return K(tuple(x.v for x in t.lst))
            except Exception:
                pass
        return t

    def x_List(self, n, env):
        t = Inst(None, 'list')
        t.lst = self.elements(n.elts, env)
        return t

    def x_Set(self, n, env):
        t = Inst(None, 'set')
        t.lst = self.elements(n.elts, env)
        return t

    def elements(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def x_Dict(self, n, env):
        d = Inst(None, 'dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, env)
                if isinstance(x, Inst) and x.dct is not None:
                    d.dct.update(x.dct)
                continue
            kv = self.eval(k, env)
            d.dct[self.key(kv)] = (kv, self.eval(v, env))
        return d

    def comp(self, gens, i, env, act):
        if i == len(gens):
            act(env)
            return
        g = gens[i]
        for v in list(self.iterate(self.eval(g.iter, env))):
            self.assign(g.target, v, env)
            if all(self.truth(self.eval(c, env)) for c in g.ifs):
                self.comp(gens, i + 1, env, act)

    def x_ListComp(self, n, env):
        t = Inst(None, 'list')
        e = Env(env.module, {}, env)
        e.func, e.cls = env.func, env.cls
        self.comp(n.generators, 0, e, lambda e2: t.lst.append(self.eval(n.elt, e2)))
        return t

    def x_SetComp(self, n, env):
        t = Inst(None, 'set')
        e = Env(env.module, {}, env)
        self.comp(n.generators, 0, e, lambda e2: t.lst.append(self.eval(n.elt, e2)))
        return t

    def x_GeneratorExp(self, n, env):
        out = []
        e = Env(env.module, {}, env)
        self.comp(n.generators, 0, e, lambda e2: out.append(self.eval(n.elt, e2)))
        return GenV(out)

    def x_DictComp(self, n, env):
        d = Inst(None, 'dict')
        e = Env(env.module, {}, env)

        def act(e2):
            k = self.eval(n.key, e2)
            d.dct[self.key(k)] = (k, self.eval(n.value, e2))
        self.comp(n.generators, 0, e, act)
        return d

    def x_Lambda(self, n, env):
        return LambdaV(n, env, env.module)

    def x_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def x_BoolOp(self, n, env):
        v = NONE
        for e in n.values:
            v = self.eval(e, env)
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                return v
        return v

    def x_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return K(not self.truth(v))
        if isinstance(v, K):
            try:
                if isinstance(n.op, ast.USub):
                    return K(-v.v)
                if isinstance(n.op, ast.Invert):
                    return K(~v.v)
                return v
            except TypeError:
                raise PyRaise('TypeError')
        if isinstance(v, Lin) and isinstance(n.op, (ast.USub, ast.UAdd)):
            return linear('Mult', K(-1), v) if isinstance(n.op, ast.USub) else v
        if isinstance(v, Atom):
            return Atom(v.kind, '-' + v.label)
        return v

    def x_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def x_JoinedStr(self, n, env):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value, env)
        return Atom('str', 'text')

    def x_Starred(self, n, env):
        return self.eval(n.value, env)

    def x_Slice(self, n, env):
        lo = self.eval(n.lower, env) if n.lower else NONE
        hi = self.eval(n.upper, env) if n.upper else NONE
        st = self.eval(n.step, env) if n.step else NONE
        if all(isinstance(x, K) for x in (lo, hi, st)):
            return K(slice(lo.v, hi.v, st.v))
        return Unknown('slice')

    def x_Subscript(self, n, env):
        b = self.eval(n.value, env)
        k = self.eval(n.slice, env)
        return self.getitem(b, k)

    def getitem(self, b, k):
        if isinstance(b, Inst):
            if b.cls is not None:
                m = b.cls.find_method('__getitem__')
                if isinstance(m, Func):
                    return self.call_func(m, [b, k], {})
            return self.raw_getitem(b, k)
        if isinstance(b, K) and isinstance(k, K):
            try:
                r = b.v[k.v]
            except KeyError:
                raise PyRaise('KeyError')
            except IndexError:
                raise PyRaise('IndexError')
            except TypeError:
                raise PyRaise('TypeError')
            return K(r)
        if isinstance(b, Atom):
            if b.kind in ('bytearray', 'bytes', 'str') and isinstance(k, K) and isinstance(k.v, slice):
                return Atom(b.kind, b.label, b.mutable, of=b)
            return Atom('?', 'item of ' + b.label)
        if isinstance(b, K):
            return Unknown('index of a constant')
        return Unknown('index')

    def lookup(self, b, k):
        """the entry of a mapping under a key, None when it has none; an open key is split over the constant keys"""
        x = b.dct.get(self.key(k))
        if x is None and isinstance(k, Unknown):
            return (k, Unknown('lookup'))
        if x is None and b.dct and not isinstance(k, (K, Inst)):
            if len(b.dct) > 32:
                return (k, Unknown('lookup'))
            for kk, v in list(b.dct.values()):
                if self.equal(kk, k):
                    return (kk, v)
        return x

    def raw_getitem(self, b, k):
        if b.dct is not None:
            x = self.lookup(b, k)
            if x is None:
                raise PyRaise('KeyError')
            return x[1]
        if b.lst is not None:
            if isinstance(k, K):
                try:
                    r = b.lst[k.v]
                except IndexError:
                    raise PyRaise('IndexError')
                except TypeError:
                    raise PyRaise('TypeError')
                if isinstance(k.v, slice):
                    l = Inst(None, b.kind if b.kind in ('list', 'tuple') else 'list')
                    l.lst = r
                    return l
                return r
            if isinstance(k, SliceV) or isinstance(k, Unknown):
                return Unknown('slice')
            return b.lst[0] if len(b.lst) == 1 else Unknown('element')
        raise PyRaise('TypeError', 'not subscriptable')

    def x_Compare(self, n, env):
        a = self.eval(n.left, env)
        for op, c in zip(n.ops, n.comparators):
            b = self.eval(c, env)
            if not self.compare(type(op).__name__, a, b):
                return K(False)
            a = b
        return K(True)

    def same(self, a, b):
        """identity, or None when not decided"""
        if isinstance(a, K) and isinstance(b, K):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return a.v is b.v
            return a is b or (type(a.v) is type(b.v) and a.v == b.v)
        if isinstance(a, (Atom,)) or isinstance(b, Atom):
            x, y = (a, b) if isinstance(a, Atom) else (b, a)
            if x is y:
                return True
            if isinstance(y, K):
                if x.kind == '?':
                    return None
                return False if y.v is None or isinstance(y.v, bool) and x.kind != 'bool' else None
            if isinstance(y, Atom):
                return None if x.kind == y.kind or '?' in (x.kind, y.kind) else False
            if isinstance(y, Unknown):
                return None
            return False if x.kind != '?' else None
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.c is b.c
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return None
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            return a.f is b.f and a.selfv is b.selfv
        return a is b

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            s = self.same(a, b)
            if s is None:
                s = self.choose(('is', self.tag(a), self.tag(b)))
            return s == (op == 'Is')
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r == (op == 'In')
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return r == (op == 'Eq')
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool({'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a.v, b.v))
            except Exception:
                raise PyRaise('TypeError')
        neg = {'GtE': 'Lt', 'LtE': 'Gt'}
        if op in neg:
            return not self.choose((neg[op], self.tag(a), self.tag(b)))
        return self.choose((op, self.tag(a), self.tag(b)))

    def tag(self, v):
        if isinstance(v, K):
            return ('k', repr(v.v))
        if isinstance(v, Atom):
            return ('a', v.origin().id)
        if isinstance(v, Inst):
            return ('i', v.id)
        if isinstance(v, Unknown):
            self.unknowns.append(v)
            return ('?', len(self.taken))
        return ('o', id(v))

    comparing = set()

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst) and x.cls is not None:
                m = x.cls.find_method('__eq__')
                if isinstance(m, Func):
                    r = self.call_func(m, [x, y], {})
                    if isinstance(r, Builtin) and r.name == 'NotImplemented':
                        continue
                    return self.truth(r)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return a.v == b.v
            except Exception:
                return False
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a is b:
                return True
            if a.kind == b.kind and a.lst is not None and b.lst is not None:
                return len(a.lst) == len(b.lst) and all(self.equal(x, y) for x, y in zip(a.lst, b.lst))
            if a.dct is not None and b.dct is not None:
                if set(a.dct) != set(b.dct):
                    return False
                pair = (a.id, b.id)
                if pair in self.comparing:
                    return True
                self.comparing.add(pair)
                try:
                    return all(self.equal(a.dct[k][1], b.dct[k][1]) for k in list(a.dct))
                finally:
                    self.comparing.discard(pair)
            ha, hb = getattr(a, 'hashlabel', None), getattr(b, 'hashlabel', None)
            if ha is not None and hb is not None:
                return ha == hb
            return False
        s = self.same(a, b)
        if s is not None and (s or not (isinstance(a, (K, Atom)) and isinstance(b, (K, Atom)))):
            return s
        if isinstance(a, Atom) and isinstance(b, Atom) and a.origin() is b.origin():
            return True
        if isinstance(a, (Inst, ClassV)) or isinstance(b, (Inst, ClassV)):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return self.choose(('eq', self.tag(a), self.tag(b)))
            return False
        if isinstance(a, Atom) and isinstance(b, K) or isinstance(a, K) and isinstance(b, Atom):
            x, y = (a, b) if isinstance(a, Atom) else (b, a)
            t = PYTYPES.get(x.kind)
            if t is not None and y.v is not None and not isinstance(y.v, (int, float)) and not isinstance(y.v, t):
                return False
            if y.v is None and x.kind != '?':
                return False
        ta, tb = self.tag(a), self.tag(b)
        if repr(tb) < repr(ta):
            ta, tb = tb, ta
        return self.choose(('eq', ta, tb))

    def contains(self, c, x):
        if isinstance(c, Inst):
            if c.cls is not None:
                m = c.cls.find_method('__contains__')
                if isinstance(m, Func):
                    return self.truth(self.call_func(m, [c, x], {}))
            if c.dct is not None:
                return self.lookup(c, x) is not None if not isinstance(x, Unknown) else self.choose(('in', self.tag(x), c.id))
            if c.cls is not None:
                m = c.cls.find_method('__iter__')
                if isinstance(m, Func) and c.lst is None:
                    return any(self.equal(y, x) for y in self.iterate(c))
            if c.lst is not None:
                return any(self.equal(y, x) for y in c.lst)
            raise PyRaise('TypeError')
        if isinstance(c, K) and isinstance(x, K):
            try:
                return x.v in c.v
            except Exception:
                raise PyRaise('TypeError')
        if isinstance(c, K) and isinstance(c.v, (tuple, set, frozenset, list)):
            return any(self.equal(K(y), x) for y in sorted(c.v, key=repr))
        if isinstance(c, GenV):
            return any(self.equal(y, x) for y in self.iterate(c))
        return self.choose(('in', self.tag(x), self.tag(c)))

    def x_BinOp(self, n, env):
        return self.binop(type(n.op).__name__, self.eval(n.left, env), self.eval(n.right, env))

    def binop(self, op, a, b):
        if isinstance(a, K) and isinstance(b, K):
            from .load import binop
            try:
                return K(binop(getattr(ast, op)(), a.v, b.v))
            except ValueError:
                if op == 'Mod' and isinstance(a.v, (str, bytes)):
                    return Atom('str', 'text')
                raise PyRaise('TypeError')
        if op == 'Add' and isinstance(a, Inst) and isinstance(b, Inst) and a.lst is not None and b.lst is not None:
            l = Inst(None, a.kind)
            l.lst = list(a.lst) + list(b.lst)
            return l
        if op == 'Mult' and isinstance(a, Inst) and a.lst is not None and isinstance(b, K) and isinstance(b.v, int):
            l = Inst(None, a.kind)
            l.lst = list(a.lst) * min(b.v, 64)
            return l
        if op == 'Mod' and isinstance(a, K) and isinstance(a.v, str):
            return Atom('str', 'text')
        for x in (a, b):
            if isinstance(x, Unknown):
                return Unknown('arithmetic')
        if isinstance(a, Lin) or isinstance(b, Lin):
            r = linear(op, a, b)
            if r is not None:
                return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Atom):
                if isinstance(y, K) and y.v is None:
                    raise PyRaise('TypeError', 'operand')
                if op == 'Div' and x.kind in ('int', 'float'):
                    return Atom('float', 'number')
                return Atom(x.kind if x.kind != '?' else (y.kind if isinstance(y, Atom) else '?'), 'computed', x.mutable and x.kind == 'bytearray')
        if isinstance(a, K) and a.v is None or isinstance(b, K) and b.v is None:
            raise PyRaise('TypeError', 'operand')
        return Unknown('arithmetic')

    def x_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value is not None else NONE
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            raise Stop('yield')
        e.yields.append(v)
        if len(e.yields) > 2000:
            raise Budget('endless generator')
        return NONE

    def x_YieldFrom(self, n, env):
        for v in self.iterate(self.eval(n.value, env)):
            env.yields.append(v)
        return NONE

    def x_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not self.local(env, 'super'):
            return self.super_(n, env)
        f = self.eval(n.func, env)
        args = self.elements(n.args, env)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, Inst) and v.dct is not None:
                    for kk, vv in v.dct.values():
                        if isinstance(kk, K):
                            kw[kk.v] = vv
                continue
            kw[k.arg] = v
        return self.call(f, args, kw, n, env)

    def local(self, env, n):
        e = env
        while e is not None:
            if n in e.vars:
                return True
            e = e.parent
        return False

    def super_(self, n, env):
        e = env
        while e is not None and e.func is None:
            e = e.parent
        if n.args:
            o = self.eval(n.args[0], env)
            s = self.eval(n.args[1], env) if len(n.args) > 1 else NONE
            owner = o.c if isinstance(o, ClassV) else None
        else:
            owner = e.cls if e is not None else None
            a = e.func.node.args
            nm = (list(getattr(a, 'posonlyargs', [])) + list(a.args))[0].arg
            s = e.vars[nm]
        if owner is None:
            return Unknown('super')
        dyn = s.c if isinstance(s, ClassV) else s.cls if isinstance(s, Inst) else None
        return SuperV(owner, s, dyn)

    # -- builtins ---------------------------------------------------------------------------
    def isinst(self, v, t):
        if isinstance(t, K) and isinstance(t.v, tuple):
            return any(self.isinst(v, K(x)) for x in t.v)
        if isinstance(t, Inst) and t.kind in ('tuple', 'list'):
            for x in t.lst:
                r = self.isinst(v, x)
                if r:
                    return True
            return False
        if isinstance(t, ClassV):
            if isinstance(v, Inst):
                return v.cls is not None and (v.cls is t.c or t.c in v.cls.mro())
            if isinstance(v, (K, ClassV, FuncV, Partial, GenV)):
                return False
            if isinstance(v, Atom):
                return False if v.kind != '?' else self.choose(('isinst', v.origin().id, t.c.name))
            self.unknowns.append(v)
            return self.choose(('isinst', self.tag(v), t.c.name))
        name = t.name.split('.')[-1] if isinstance(t, (Builtin, Ext)) else None
        if name is None:
            if isinstance(t, K) and isinstance(t.v, type):
                name = t.v.__name__
            else:
                self.unknowns.append(t)
                return self.choose(('isinst', self.tag(v), '?'))
        if name == 'object':
            return True
        if isinstance(v, K):
            p = PYTYPES.get(name)
            if p is not None:
                return isinstance(v.v, p)
            return False
        if isinstance(v, Atom):
            if v.kind == '?':
                return self.choose(('isinst', v.origin().id, name))
            if v.kind == name:
                return True
            a, b = PYTYPES.get(v.kind), PYTYPES.get(name)
            if a is not None and b is not None:
                return issubclass(a, b)
            return name in EXT_BASES.get(v.kind, ())
        if isinstance(v, Inst):
            if v.cls is not None:
                for x in v.cls.mro():
                    if not isinstance(x, Class):
                        s = x.split('.')[-1]
                        if s == name or s in ('OrderedDict', 'WeakValueDictionary') and name in ('dict', 'OrderedDict'):
                            return True
                return False
            return v.kind == name or v.kind == 'dict' and name == 'dict'
        if isinstance(v, (ClassV, FuncV, Partial, GenV, LambdaV)):
            return name == 'type' and isinstance(v, ClassV)
        self.unknowns.append(v)
        return self.choose(('isinst', self.tag(v), name))

    def hasattr(self, v, name):
        if isinstance(v, Unknown) or isinstance(v, Atom) and v.kind == '?':
            self.unknowns.append(v)
            return self.choose(('hasattr', self.tag(v), name))
        try:
            r = self.getattr(v, name)
        except PyRaise as e:
            if e.name == 'AttributeError':
                return False
            raise
        return True

    def mk(self, kind, items):
        l = Inst(None, kind)
        l.lst = list(items)
        return l

    def builtin(self, name, args, kw, node, env):
        a = args
        if name == 'isinstance' and len(a) == 2:
            return K(bool(self.isinst(a[0], a[1])))
        if name == 'issubclass' and len(a) == 2:
            if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
                return K(a[1].c in a[0].c.mro())
            return Unknown('issubclass')
        if name == 'hasattr':
            if isinstance(a[1], K):
                return K(bool(self.hasattr(a[0], a[1].v)))
            return Unknown('hasattr')
        if name == 'getattr':
            if not isinstance(a[1], K):
                return Unknown('getattr')
            if len(a) == 3:
                try:
                    return self.getattr(a[0], a[1].v)
                except PyRaise as e:
                    if e.name == 'AttributeError':
                        return a[2]
                    raise
            return self.getattr(a[0], a[1].v)
        if name == 'setattr':
            if not isinstance(a[1], K):
                raise Stop('setattr with an unknown name')
            self.setattr(a[0], a[1].v, a[2])
            return NONE
        if name == 'len':
            v = a[0]
            if isinstance(v, K):
                try:
                    return K(len(v.v))
                except TypeError:
                    raise PyRaise('TypeError')
            if isinstance(v, Inst):
                if v.cls is not None:
                    m = v.cls.find_method('__len__')
                    if isinstance(m, Func):
                        return self.call_func(m, [v], {})
                if v.lst is not None:
                    return K(len(v.lst))
                if v.dct is not None:
                    return K(len(v.dct))
                raise PyRaise('TypeError')
            return Atom('int', 'length')
        if name in ('list', 'tuple', 'set', 'frozenset'):
            l = Inst(None, {'frozenset': 'set'}.get(name, name))
            if a:
                l.lst = list(self.iterate(a[0]))
                if l.kind == 'set':
                    seen, out = set(), []
                    for x in l.lst:
                        k = self.key(x)
                        if k not in seen:
                            seen.add(k)
                            out.append(x)
                    l.lst = out
            return l
        if name == 'dict':
            d = Inst(None, 'dict')
            if a:
                if isinstance(a[0], Inst) and a[0].dct is not None:
                    d.dct.update(a[0].dct)
                else:
                    for p in self.iterate(a[0]):
                        x = list(self.iterate(p))
                        if len(x) == 2:
                            d.dct[self.key(x[0])] = (x[0], x[1])
            for k, v in kw.items():
                d.dct[('k', '', k)] = (K(k), v)
            return d
        if name in ('str', 'int', 'float', 'bool', 'bytes', 'bytearray', 'repr'):
            if name == 'bool':
                return K(self.truth(a[0])) if a else K(False)
            if not a:
                return Atom('bytearray', 'new', True) if name == 'bytearray' else K({'str': '', 'int': 0, 'float': 0.0, 'bytes': b''}[name])
            v = a[0]
            if isinstance(v, K) and name in ('str', 'int', 'float', 'bytes') and len(a) == 1:
                try:
                    return K(PYTYPES[name](v.v))
                except TypeError:
                    raise PyRaise('TypeError')
                except Exception:
                    raise PyRaise('ValueError')
            if isinstance(v, Lin) and name == 'float':
                return Lin(v.parts, v.const, 'float')
            if isinstance(v, K) and v.v is None and name in ('int', 'float'):
                raise PyRaise('TypeError')
            k = 'str' if name == 'repr' else name
            if isinstance(v, Inst) and v.cls is not None and name in ('str', 'repr', 'int'):
                for mm in {'str': ('__str__', '__repr__'), 'repr': ('__repr__',), 'int': ('__int__', '__index__')}[name]:
                    m = v.cls.find_method(mm)
                    if isinstance(m, Func):
                        return self.call_func(m, [v], {})
            return Atom(k, k + '()', k == 'bytearray', of=v if isinstance(v, Atom) and v.kind == k else None)
        if name == 'range':
            if all(isinstance(x, K) for x in a):
                try:
                    r = range(*[x.v for x in a])
                except TypeError:
                    raise PyRaise('TypeError')
                return self.mk('list', [K(x) for x in list(r)[:200]])
            return self.mk('list', [Atom('int', 'index')])
        if name in ('sorted', 'reversed'):
            if name == 'reversed' and isinstance(a[0], Inst) and a[0].cls is not None and a[0].lst is not None:
                # what a list subclass stores, unless it says otherwise
                m = a[0].cls.find_method('__reversed__')
                return self.call_func(m, [a[0]], {}) if isinstance(m, Func) else GenV(list(a[0].lst)[::-1])
            items = list(self.iterate(a[0]))
            if name == 'reversed':
                return self.mk('list', items[::-1])
            return self.mk('list', self.in_order(items, a[1:], kw))
        if name == 'enumerate':
            st = a[1].v if len(a) > 1 and isinstance(a[1], K) else 0
            return GenV([self.mk('tuple', [K(i + st), v]) for i, v in enumerate(self.iterate(a[0]))])
        if name == 'zip':
            return GenV([self.mk('tuple', list(t)) for t in zip(*[list(self.iterate(x)) for x in a])])
        if name in ('map', 'filter'):
            out = []
            for v in self.iterate(a[1]):
                r = self.call(a[0], [v], {}) if not (isinstance(a[0], K)) else v
                if name == 'map':
                    out.append(r)
                elif self.truth(r):
                    out.append(v)
            return GenV(out)
        if name == 'iter':
            return GenV(list(self.iterate(a[0])))
        if name == 'next':
            g = a[0]
            if isinstance(g, GenV):
                if g.pos < len(g.items):
                    g.pos += 1
                    return g.items[g.pos - 1]
                if len(a) > 1:
                    return a[1]
                raise PyRaise('StopIteration')
            return Unknown('next')
        if name in ('any', 'all'):
            vals = [self.truth(x) for x in self.iterate(a[0])]
            return K(any(vals) if name == 'any' else all(vals))
        if name == 'object':
            return Inst(None, 'object')
        if name == 'id':
            v = a[0]
            if isinstance(v, Inst):
                return K(('id', v.id))
            if isinstance(v, Atom):
                return K(('aid', v.id))
            return Atom('int', 'id')
        if name == 'type':
            v = a[0]
            if isinstance(v, Inst):
                return ClassV(v.cls) if v.cls is not None else Builtin(v.kind)
            if isinstance(v, K):
                return Builtin(type(v.v).__name__)
            if isinstance(v, Atom) and v.kind != '?':
                return Builtin(v.kind)
            return Unknown('type')
        if name == 'print':
            return NONE
        if name == 'callable':
            return K(isinstance(a[0], (FuncV, LambdaV, ClassV, Builtin, Bound, Partial)))
        if name in ('min', 'max', 'sum', 'abs', 'round', 'pow', 'divmod', 'ord', 'hash'):
            if name == 'sum' and a:
                r = a[1] if len(a) > 1 else K(0)
                for x in self.iterate(a[0]):
                    r = self.binop('Add', r, x)
                return r
            vals = a if len(a) > 1 else (list(self.iterate(a[0])) if name in ('min', 'max', 'sum') else a)
            if vals and all(isinstance(x, K) for x in vals):
                try:
                    return K({'min': min, 'max': max, 'sum': sum, 'abs': lambda l: abs(l[0]), 'round': lambda l: round(*l), 'pow': lambda l: pow(*l),
                              'divmod': lambda l: divmod(*l), 'ord': lambda l: ord(l[0]), 'hash': lambda l: 0}[name]([x.v for x in vals]))
                except Exception:
                    raise PyRaise('TypeError')
            if name == 'sum' and not vals:
                return K(0)
            return Atom('int', name)
        if name in ('chr', 'format', 'hex'):
            return Atom('str', name)
        if name.endswith('Error') or name in ('Exception', 'BaseException', 'StopIteration', 'KeyboardInterrupt'):
            return Atom('exception', name, truth=True)
        if name == 'slice':
            if all(isinstance(x, K) for x in a):
                return K(slice(*[x.v for x in a]))
            return Unknown('slice')
        if name == 'super':
            return Unknown('super')
        return Unknown('%s()' % name)

    # methods of builtin payloads
    def bound(self, base, name, args, kw):
        raw = False
        if isinstance(base, tuple) and base[0] == 'super':
            base = base[1]
            raw = True
            if name == '__new__':
                c = args[0].c if args and isinstance(args[0], ClassV) else None
                return self.new(c) if c is not None else Unknown('new')
            if name == '__init__':
                if isinstance(base, Inst) and base.lst is not None and args:
                    base.lst.extend(self.iterate(args[0]))
                elif isinstance(base, Inst) and base.dct is not None and args and isinstance(args[0], Inst) and args[0].dct is not None:
                    base.dct.update(args[0].dct)
                return NONE
            if name == '__setattr__':
                self.setattr(base, args[0].v, args[1], raw=True)
                return NONE
            if name in ('__repr__', '__str__'):
                return Atom('str', 'text')
            if name in ('__getattribute__',):
                return self.getattr(base, args[0].v)
        if isinstance(base, ClassV):
            if name == '__new__':
                c = args[0].c if args and isinstance(args[0], ClassV) else base.c
                return self.new(c)
            # unbound method of an external base
            if args and isinstance(args[0], Inst):
                return self.bound(('super', args[0]), name, args[1:], kw)
            return Unknown('unbound %s' % name)
        if isinstance(base, Builtin):
            if name == '__new__':
                if args and isinstance(args[0], ClassV):
                    return self.new(args[0].c)
                return Unknown('new')
            if name == 'fromkeys':
                return Unknown('fromkeys')
            if args and isinstance(args[0], Inst) and base.name in ('list', 'dict', 'object', 'OrderedDict'):
                return self.bound(('super', args[0]), name, args[1:], kw)
            return Atom('?', name)
        if isinstance(base, K):
            if all(isinstance(x, K) for x in args) and not kw and isinstance(base.v, (str, bytes, int, float, tuple, type(None))):
                try:
                    r = getattr(base.v, name)(*[x.v for x in args])
                except (TypeError, AttributeError):
                    raise PyRaise('TypeError')
                except Exception as e:
                    raise PyRaise(type(e).__name__)
                if isinstance(r, list):
                    return self.mk('list', [K(x) for x in r])
                if r is NotImplemented:
                    return K(False)
                return K(r)
            if name in ('join', 'format', 'replace', 'strip'):
                if name == 'join' and args:
                    list(self.iterate(args[0]))
                return Atom('str' if isinstance(base.v, str) else 'bytes', 'text')
            return Unknown('method %s of a constant' % name)
        if isinstance(base, Atom):
            if name in ('copy', '__copy__', '__deepcopy__') and base.mutable:
                return Atom(base.kind, base.label, True, of=base)
            if name in ('encode',):
                return Atom('bytes', 'encoded')
            if name in ('decode', 'format', 'strip', 'replace', 'upper', 'lower', 'join', 'strftime', 'isoformat'):
                return Atom('str', 'text')
            if name in ('split', 'splitlines'):
                return self.mk('list', [Atom('str', 'part')])
            if name in ('append', 'extend', 'clear', 'insert', 'remove', 'reverse') and base.mutable:
                self.event('mutate', base)
                return NONE
            if name in ('startswith', 'endswith', 'isdigit'):
                return Atom('bool', name)
            if base.kind == '?' or base.kind not in PYTYPES:
                return Atom('?', '%s of %s' % (name, base.label))
            return Atom('?', name)
        if isinstance(base, GenV):
            return Unknown('generator method')
        if not isinstance(base, Inst):
            return Unknown('method %s' % name)
        if base.lst is not None:
            return self.list_method(base, name, args, kw, raw)
        if base.dct is not None:
            return self.dict_method(base, name, args, kw, raw)
        if name == '__class__':
            return ClassV(base.cls)
        if name in ('__eq__', '__ne__'):
            return K((base is args[0]) == (name == '__eq__'))
        if name in ('__repr__', '__str__'):
            return Atom('str', 'text')
        if name == '__hash__':
            return Atom('int', 'hash')
        if name == '__init__':
            return NONE
        return Unknown('method %s' % name)

    def list_method(self, b, name, a, kw, raw):
        l = b.lst
        if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', '__iadd__', '__imul__', 'add', 'update', 'discard'):
            self.event('mutate', b)
        if name == 'append':
            l.append(a[0])
            return NONE
        if name in ('extend', '__iadd__', 'update'):
            for x in list(self.iterate(a[0])):
                if b.kind != 'set' or not any(self.key(x) == self.key(y) for y in l):
                    l.append(x)
            return NONE if name != '__iadd__' else b
        if name == 'add':
            if not any(self.key(a[0]) == self.key(y) for y in l):
                l.append(a[0])
            return NONE
        if name == 'insert':
            i = a[0].v if isinstance(a[0], K) and isinstance(a[0].v, int) else 0
            l.insert(i, a[1])
            return NONE
        if name == 'pop':
            if not l:
                raise PyRaise('IndexError')
            i = a[0].v if a and isinstance(a[0], K) else (0 if b.kind == 'set' else -1)
            try:
                return l.pop(i)
            except IndexError:
                raise PyRaise('IndexError')
        if name in ('remove', 'discard'):
            for i, x in enumerate(l):
                if self.equal(x, a[0]):
                    del l[i]
                    return NONE
            if name == 'discard':
                return NONE
            raise PyRaise('ValueError')
        if name == 'clear':
            del l[:]
            return NONE
        if name in ('sort',):
            l[:] = self.in_order(l, a, kw)
            return NONE
        if name == 'reverse':
            l.reverse()
            return NONE
        if name == '__reversed__':
            return GenV(list(l)[::-1])
        if name == '__setitem__':
            self.raw_setitem(b, a[0], a[1])
            return NONE
        if name == '__getitem__':
            return self.raw_getitem(b, a[0])
        if name == '__delitem__':
            if isinstance(a[0], K):
                try:
                    del l[a[0].v]
                except IndexError:
                    raise PyRaise('IndexError')
                return NONE
            if l:
                l.pop()
            return NONE
        if name == '__iter__':
            return GenV(list(l))
        if name == '__len__':
            return K(len(l))
        if name == '__contains__':
            return K(any(self.equal(x, a[0]) for x in l))
        if name in ('copy', '__copy__'):
            return self.mk(b.kind, l)
        if name == 'index':
            for i, x in enumerate(l):
                if self.equal(x, a[0]):
                    return K(i)
            raise PyRaise('ValueError')
        if name == 'count':
            return K(sum(1 for x in l if self.equal(x, a[0])))
        if name in ('union', '__or__', 'difference', 'intersection', 'issubset', 'issuperset'):
            return Unknown('set operation')
        if name in ('__imul__', '__mul__', '__rmul__'):
            if not (isinstance(a[0], K) and isinstance(a[0].v, int)):
                return b if name == '__imul__' else Unknown(name)
            if name == '__imul__':
                l[:] = l * min(a[0].v, 64)
                return b
            return self.mk('list', l * min(a[0].v, 64))
        if name == '__add__':
            return self.binop('Add', b, a[0])
        if name in ('__repr__', '__str__'):
            return Atom('str', 'text')
        if name in ('__eq__', '__ne__'):
            r = isinstance(a[0], Inst) and a[0].lst is not None and len(a[0].lst) == len(l) and all(self.equal(x, y) for x, y in zip(l, a[0].lst))
            return K(r == (name == '__eq__'))
        return Unknown('list method %s' % name)

    def in_order(self, items, a, kw):
        key, rev = kw.get('key'), kw.get('reverse')
        keys = [x if key is None or isinstance(key, K) else self.call(key, [x], {}) for x in items]
        if not all(isinstance(k, K) for k in keys) or not (rev is None or isinstance(rev, K)):
            return list(items)
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i].v, reverse=bool(rev is not None and rev.v))
        except TypeError:
            raise PyRaise('TypeError', 'order')
        return [items[i] for i in order]

    def dict_method(self, b, name, a, kw, raw):
        d = b.dct
        if name in ('__setitem__', '__delitem__', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'move_to_end'):
            self.event('mutate', b)
        if name == 'get':
            x = self.lookup(b, a[0])
            if x is None:
                return a[1] if len(a) > 1 else NONE
            return x[1]
        if name == 'items':
            return GenV([self.mk('tuple', [k, v]) for k, v in d.values()])
        if name == 'keys' or name == '__iter__':
            return GenV([k for k, v in d.values()])
        if name == 'values':
            return GenV([v for k, v in d.values()])
        if name == '__setitem__':
            self.raw_setitem(b, a[0], a[1])
            return NONE
        if name == '__getitem__':
            return self.raw_getitem(b, a[0])
        if name == '__contains__' or name == 'has_key':
            return K(self.lookup(b, a[0]) is not None)
        if name == '__len__':
            return K(len(d))
        if name in ('__delitem__', 'pop'):
            x = d.pop(self.key(a[0]), None)
            if x is None:
                if len(a) > 1:
                    return a[1]
                raise PyRaise('KeyError')
            return x[1] if name == 'pop' else NONE
        if name == 'popitem':
            if not d:
                raise PyRaise('KeyError')
            k, v = d.popitem()[1]
            return self.mk('tuple', [k, v])
        if name == 'clear':
            d.clear()
            return NONE
        if name == 'setdefault':
            x = d.get(self.key(a[0]))
            if x is not None:
                return x[1]
            v = a[1] if len(a) > 1 else NONE
            d[self.key(a[0])] = (a[0], v)
            return v
        if name == 'update':
            if a and isinstance(a[0], Inst) and a[0].dct is not None:
                for k, v in list(a[0].dct.values()):
                    self.setitem(b, k, v) if not raw else self.raw_setitem(b, k, v)
            elif a:
                for p in self.iterate(a[0]):
                    x = list(self.iterate(p))
                    self.raw_setitem(b, x[0], x[1])
            for k, v in kw.items():
                d[('k', '', k)] = (K(k), v)
            return NONE
        if name in ('copy', '__copy__'):
            r = Inst(b.cls if b.cls is not None else None, 'dict')
            r.dct.update(d)
            return r
        if name == 'move_to_end':
            return NONE
        if name in ('__repr__', '__str__'):
            return Atom('str', 'text')
        if name in ('__eq__', '__ne__'):
            return Atom('bool', 'equal')
        return Unknown('dict method %s' % name)

    # -- outside the repository ---------------------------------------------------------------
    def external(self, name, args, kw):
        s = name.split('.')[-1]
        if name.split('.')[-2:-1] in (['OrderedDict'], ['list'], ['dict']) and args and isinstance(args[0], Inst):
            return self.bound(('super', args[0]), s, args[1:], kw)      # an unbound operation
        if name in ('copy.deepcopy',):
            return self.deepcopy(args[0], {})
        if name in ('copy.copy',):
            return self.shallow(args[0])
        if s == 'partial' and name.startswith('functools'):
            return Partial(args[0], args[1:], kw)
        if s in ('OrderedDict', 'WeakValueDictionary', 'defaultdict'):
            if s == 'defaultdict':
                return Unknown('defaultdict')
            return self.builtin('dict', args, kw, None, None)
        if s in ('deque',):
            return self.builtin('list', args, kw, None, None)
        if s in ('UUID', 'uuid4', 'uuid1', 'uuid5', 'uuid3'):
            return Atom('UUID', 'uuid', truth=True)
        if name.startswith('datetime'):
            return Atom('datetime', 'time', truth=True)
        if s in ('bisect', 'bisect_left', 'bisect_right') and len(args) == 2 and isinstance(args[0], Inst) and args[0].lst is not None and all(isinstance(x, K) for x in args[0].lst + [args[1]]):
            import bisect
            try:
                return K(getattr(bisect, s)([x.v for x in args[0].lst], args[1].v))
            except TypeError:
                raise PyRaise('TypeError')
        if name in ('math.floor', 'math.ceil') and isinstance(args[0], K) and isinstance(args[0].v, (int, float)):
            import math
            return K(getattr(math, s)(args[0].v))
        if s in ('Fraction', 'Decimal', 'gcd', 'floor', 'ceil', 'time', 'mktime', 'pow', 'sqrt'):
            return Atom('float' if s in ('sqrt', 'pow', 'time') else 'int', s)
        if s == 'BytesIO':
            return Atom('stream', 'memory stream', True, truth=True)
        if name == 'struct.unpack' and len(args) == 2 and all(isinstance(x, K) for x in args):
            import struct
            try:
                return self.mk('tuple', [K(x) for x in struct.unpack(args[0].v, bytes(args[1].v))])
            except Exception:
                raise PyRaise('error', 'struct')
        if s in ('hexlify', 'unhexlify', 'pack', 'b64encode'):
            return Atom('bytes', s)
        if s in ('chain', 'islice'):
            if s == 'chain':
                out = []
                for x in args:
                    out.extend(self.iterate(x))
                return GenV(out)
        if s in ('itemgetter', 'attrgetter'):
            return Unknown(s)
        return Atom('?', name + '()', True)

    def deepcopy(self, v, memo):
        self.tick()
        if isinstance(v, (K, ClassV, FuncV, Builtin, ModV, Ext, LambdaV)):
            return v
        if isinstance(v, Atom):
            return Atom(v.kind, v.label, v.mutable, of=v, truth=v.truth) if v.mutable else v
        if isinstance(v, Inst):
            if v.id in memo:
                return memo[v.id]
            if v.cls is not None:
                m = v.cls.find_method('__deepcopy__')
                if isinstance(m, Func):
                    r = self.call_func(m, [v, Inst(None, 'dict')], {})
                    memo[v.id] = r
                    return r
            r = Inst(v.cls, v.kind, v.label)
            r.of = v
            if hasattr(v, 'hashlabel'):
                r.hashlabel = v.hashlabel
            memo[v.id] = r
            if v.kind in ('list', 'set', 'tuple'):
                r.lst = [self.deepcopy(x, memo) for x in v.lst]
            if v.dct is not None:
                for k, (kk, x) in v.dct.items():
                    r.dct[k] = (kk, self.deepcopy(x, memo))
            for k, x in v.attrs.items():
                r.attrs[k] = self.deepcopy(x, memo)
            return r
        return Unknown('deepcopy')

    def shallow(self, v):
        if isinstance(v, Inst):
            if v.cls is not None:
                m = v.cls.find_method('__copy__')
                if isinstance(m, Func):
                    return self.call_func(m, [v], {})
            r = Inst(v.cls, v.kind, v.label)
            r.of = v
            if v.lst is not None:
                r.lst = list(v.lst)
            if v.dct is not None:
                r.dct.update(v.dct)
            r.attrs.update(v.attrs)
            return r
        if isinstance(v, Atom) and v.mutable:
            return Atom(v.kind, v.label, True, of=v, truth=v.truth)
        return v


EXT_ATTRS = {'UUID': {'bytes', 'bytes_le', 'hex', 'int', 'urn', 'time_low', 'time_mid', 'time_hi_version', 'fields', 'node', 'clock_seq', 'version', 'variant'},
             'datetime': {'strftime', 'timetuple', 'isoformat', 'year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'timestamp', 'replace'}}
EXT_BASES = {'datetime': ('date',)}


class SliceV(V):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class LiveList(object):
    """iteration over a list that may change meanwhile"""
    def __init__(self, inst):
        self.inst = inst

    def __iter__(self):
        i = 0
        while i < len(self.inst.lst):
            yield self.inst.lst[i]
            i += 1
            if i > 2000:
                raise Budget('list grows without end')


class Env(object):
    __slots__ = ('module', 'vars', 'parent', 'func', 'cls', 'dyn', 'yields', 'caught', 'nonlocals', 'classbody')

    def __init__(self, module, vars, parent):
        self.module = module
        self.vars = vars
        self.parent = parent
        self.func = None
        self.cls = None
        self.dyn = None
        self.yields = None
        self.caught = None
        self.nonlocals = set()
        self.classbody = None


def as_load(t):
    import copy
    x = copy.copy(t)
    x.ctx = ast.Load()
    return x


GEN = {}


def is_gen(node):
    r = GEN.get(id(node))
    if r is None or r[0] is not node:
        r = GEN[id(node)] = (node, has_yield(node))
    return r[1]


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


# -- the object graph ---------------------------------------------------------------------

def children(v):
    if isinstance(v, Inst):
        for x in v.attrs.items():
            yield x
        if v.lst is not None:
            for i, x in enumerate(v.lst):
                yield '[%d]' % i, x
        if v.dct is not None:
            for k, x in v.dct.values():
                yield '[%r]' % (k,), x
    elif isinstance(v, Partial):
        for i, x in enumerate(v.args):
            yield 'arg%d' % i, x


def reach(v, skip=()):
    """{id: (node, path)} of mutable nodes reachable, not through skip"""
    out = {}
    stack = [(v, '')]
    while stack:
        x, p = stack.pop()
        if isinstance(x, Atom):
            if x.mutable:
                out.setdefault(('a', x.id), (x, p))
            continue
        if not isinstance(x, Inst) or any(x is s for s in skip):
            continue
        if ('i', x.id) in out:
            continue
        out[('i', x.id)] = (x, p)
        for n, c in children(x):
            stack.append((c, p + ('.' if n[:1] not in '[' else '') + n))
    return out
