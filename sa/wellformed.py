"""Scopes (which names exist where) and definite assignment along paths."""
import ast
import symtable

CAP = 600
NO_RETURN = set()      # names of functions that only ever raise


def no_return(v):
    if not isinstance(v, ast.Call):
        return False
    f = v.func
    return (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None) in NO_RETURN


def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


class Scopes(object):
    """undefined = [(name, line, qualified function)]; functions = [(qualified name, node)]"""

    def __init__(self, tree, builtin_names, old):
        self.undefined = []
        self.functions = []
        self.resolved = 0
        self.tree = tree
        self.old = old
        self.builtins = builtin_names
        self.par = parents(tree)
        self.module = self.bound(tree, True)
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for g in [x for x in ast.walk(n) if isinstance(x, ast.Global)]:
                    self.module.update(g.names)
        self.star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(tree))
        self.scope(tree, [], [])

    @staticmethod
    def targets(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            yield n.name
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                yield (a.asname or a.name).split('.')[0]
        elif isinstance(n, ast.ExceptHandler) and n.name:
            yield n.name
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            yield n.name
        elif isinstance(n, ast.MatchMapping) and n.rest:
            yield n.rest

    def bound(self, node, module=False):
        out = set()
        glob = set()
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                out.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        stack = list(body)
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            stack = []
        while stack:
            n = stack.pop()
            out.update(self.targets(n))
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                stack.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                # its targets are its own, what is assigned with := is not
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            stack.extend(ast.iter_child_nodes(n))
        return out - glob

    def scope(self, node, chain, names):
        """chain = bound names of the function scopes around; names = qualified name"""
        if isinstance(node, ast.Module):
            for s in node.body:
                self.visit(s, [self.module], names, [])
            return

    def visit(self, n, local, names, around):
        """local: scopes visible here, innermost last"""
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(n, 'decorator_list', []):
                self.visit(d, local, names, around)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, local, names, around)
            q = names + [getattr(n, 'name', '<lambda>')]
            if not isinstance(n, ast.Lambda):
                self.functions.append(('.'.join(q), n))
            inner = [s for s in local if not isinstance(s, ClassScope)] + [self.bound(n)]
            for s in (n.body if isinstance(n.body, list) else [n.body]):
                self.visit(s, inner, q, around)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, local, names, around)
            inner = local + [ClassScope(self.bound(n))]
            for s in n.body:
                self.visit(s, inner, names + [n.name], around)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            own = set()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        own.add(x.id)
            for i, g in enumerate(n.generators):
                self.visit(g.iter, local if i == 0 else local + [own], names, around)
            inner = [s for s in local if not isinstance(s, ClassScope)] + [own]
            for g in n.generators:
                for c in g.ifs:
                    self.visit(c, inner, names, around)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    self.visit(getattr(n, f), inner, names, around)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.resolved += 1
            if not any(n.id in s for s in local) and n.id not in self.builtins and not self.star and not self.excused(n):
                self.undefined.append((n.id, n.lineno, '.'.join(names) or '<module>'))
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, local, names, around)

    def excused(self, n):
        x = n
        while x in self.par:
            p = self.par[x]
            if isinstance(p, ast.Try) and x in p.body:
                for h in p.handlers:
                    if h.type is None or any(isinstance(y, ast.Name) and y.id in ('NameError', 'Exception', 'BaseException') for y in ast.walk(h.type)):
                        return True
            if isinstance(p, (ast.If, ast.IfExp)) and x is not p.test and n.id in self.old:
                for y in ast.walk(p.test):
                    if isinstance(y, ast.Attribute) and 'version' in y.attr or isinstance(y, ast.Name) and ('PY' in y.id.upper() or 'version' in y.id.lower()):
                        return True
            x = p
        return False


class ClassScope(set):
    pass


COMPLEMENT = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}


class State(object):
    __slots__ = ('set', 'maybe', 'facts', 'fresh')

    def __init__(self, s, maybe, facts, fresh):
        self.set, self.maybe, self.facts, self.fresh = s, maybe, facts, fresh

    def key(self):
        return (self.set, self.maybe, self.facts, self.fresh)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()


class GiveUp(Exception):
    pass


class Assigned(object):
    """bad = {name: line}: some path reads the variable unset; maybe: only unset when a loop runs no time"""

    def __init__(self, node):
        self.node = node
        self.bad, self.maybe = {}, {}
        self.reads = 0
        self.gave_up = False
        a = node.args
        self.params = {x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        sc = Scopes.__new__(Scopes)
        self.locals = sc.bound(node)
        self.loops = []          # (names assigned or changed in the loop)
        # tests that occur more than once tell paths apart
        seen = {}
        for n in ast.walk(node):
            for t in self.tests(n):
                k = self.norm(t)[0]
                seen[k] = seen.get(k, 0) + 1
        self.keys = {k for k, c in seen.items() if c > 1}
        self.tested = set(seen)

    @staticmethod
    def tests(n):
        def atoms(t):
            if isinstance(t, ast.BoolOp):
                for v in t.values:
                    for x in atoms(v):
                        yield x
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                for x in atoms(t.operand):
                    yield x
            else:
                yield t
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            return list(atoms(n.test))
        return []

    @staticmethod
    def norm(t):
        """(key, polarity)"""
        pol = True
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, pol = t.operand, not pol
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = type(t.ops[0])
            if op in COMPLEMENT:
                return 'cmp %s %s %s' % (ast.dump(t.left), COMPLEMENT[op].__name__, ast.dump(t.comparators[0])), not pol
            return 'cmp %s %s %s' % (ast.dump(t.left), op.__name__, ast.dump(t.comparators[0])), pol
        return ast.dump(t), pol

    # -- driver
    def run(self):
        s = State(frozenset(self.params & self.locals), frozenset(), frozenset(), frozenset())
        try:
            self.block(self.node.body, {s})
        except GiveUp:
            self.gave_up = True

    def cap(self, states):
        if len(states) > CAP:
            # forget the tests
            states = {State(s.set, s.maybe, frozenset(), s.fresh) for s in states}
            if len(states) > CAP:
                raise GiveUp()
        return states

    # -- expressions
    def read(self, n, states):
        self.reads += 1
        for s in states:
            if n.id not in s.set:
                if n.id in s.maybe:
                    self.maybe.setdefault(n.id, n.lineno)
                else:
                    self.bad.setdefault(n.id, n.lineno)

    def expr(self, n, states):
        """check the reads; returns the states after (assignments by :=)"""
        if n is None or not states:
            return states
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.locals:
                self.read(n, states)
            return states
        if isinstance(n, ast.BoolOp):
            cur = self.expr(n.values[0], states)
            for prev, v in zip(n.values, n.values[1:]):
                cur = self.branch(prev, cur, isinstance(n.op, ast.And))
                self.expr(v, cur)
            return states
        if isinstance(n, ast.IfExp):
            states = self.expr(n.test, states)
            self.expr(n.body, self.branch(n.test, states, True))
            self.expr(n.orelse, self.branch(n.test, states, False))
            return states
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                states = self.expr(d, states)
            return states
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            self.expr(n.generators[0].iter, states)
            hide = self.locals
            self.locals = self.locals - own
            inner = states
            for i, g in enumerate(n.generators):
                if i:
                    self.expr(g.iter, inner)
                for c in g.ifs:
                    self.expr(c, inner)
                    inner = self.branch(c, inner, True)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    self.expr(getattr(n, f), inner)
            self.locals = hide
            return states
        if isinstance(n, ast.NamedExpr):
            states = self.expr(n.value, states)
            return self.assign(n.target, states, n.value)
        for c in ast.iter_child_nodes(n):
            states = self.expr(c, states)
        return states

    def branch(self, t, states, val):
        """the states in which test t may have the value"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.branch(t.operand, states, not val)
        if isinstance(t, ast.Constant):
            return states if bool(t.value) == val else set()
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == val:
                for v in t.values:
                    states = self.branch(v, states, val)
                return states
            out, rest = set(), states
            for v in t.values:
                out |= self.branch(v, rest, val)
                rest = self.branch(v, rest, not val)
            return self.cap(out)
        k, pol = self.norm(t)
        want = val if pol else not val
        out = set()
        carried = None
        for s in states:
            d = [v for f, v in s.facts if f == k]
            if d:
                if d[0] == want:
                    out.add(s)
                continue
            m = s.maybe
            if self.loops:
                if carried is None:
                    carried = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                    carried |= {'.' + x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}
                # the outcome may depend on what an earlier run of the loop did
                for ch in self.loops:
                    if (carried & ch) - s.fresh:
                        m = m | (ch & self.locals)
            f = s.facts | {(k, want)} if k in self.keys else s.facts
            out.add(State(s.set, m, f, s.fresh))
        return out

    # -- assignment
    def kill(self, s, name):
        q = "id='%s'" % name
        return frozenset((k, v) for k, v in s.facts if q not in k)

    def put(self, name, states, value=None):
        if name not in self.locals:
            return states
        out = set()
        for s in states:
            f = self.kill(s, name)
            if isinstance(value, ast.Constant):
                x = ast.Name(id=name, ctx=ast.Load())
                k = ast.dump(x)
                if k in self.tested:
                    f = f | {(k, bool(value.value))}
                k = 'cmp %s Is %s' % (ast.dump(x), ast.dump(ast.Constant(value=None)))
                if k in self.tested:
                    f = f | {(k, value.value is None)}
            out.add(State(s.set | {name}, s.maybe, f, s.fresh | {name} if self.loops else s.fresh))
        return out

    def assign(self, t, states, value=None):
        if isinstance(t, ast.Name):
            return self.put(t.id, states, value)
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                states = self.assign(e, states)
            return states
        if isinstance(t, ast.Starred):
            return self.assign(t.value, states)
        return self.expr(t, states)

    # -- statements
    def block(self, body, states, ctl=None):
        ctl = ctl if ctl is not None else {'break': set(), 'continue': set()}
        for st in body:
            if not states:
                return states
            states = self.cap(self.stmt(st, states, ctl))
        return states

    def changed(self, nodes):
        out = set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add('.' + n.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n.value
                    out.add(x.id if isinstance(x, ast.Name) else '.' + x.attr if isinstance(x, ast.Attribute) else '')
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    x = n.func.value
                    if n.func.attr in ('append', 'add', 'pop', 'remove', 'insert', 'extend', 'update', 'clear', 'discard', 'setdefault', 'popitem', 'popleft', 'appendleft'):
                        out.add(x.id if isinstance(x, ast.Name) else '.' + x.attr if isinstance(x, ast.Attribute) else '')
        return out

    def stmt(self, n, states, ctl):
        if isinstance(n, ast.Assign):
            states = self.expr(n.value, states)
            for t in n.targets:
                states = self.assign(t, states, n.value)
            return states
        if isinstance(n, ast.AugAssign):
            states = self.expr(n.value, states)
            if isinstance(n.target, ast.Name):
                if n.target.id in self.locals:
                    self.read(n.target, states)
                return self.put(n.target.id, states)
            return self.expr(n.target, states)
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return states
            states = self.expr(n.value, states)
            return self.assign(n.target, states, n.value)
        if isinstance(n, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(n):
                states = self.expr(c, states)
            return set()
        if isinstance(n, ast.If):
            states = self.expr(n.test, states)
            a = self.block(n.body, self.branch(n.test, states, True), ctl)
            b = self.block(n.orelse, self.branch(n.test, states, False), ctl)
            return a | b
        if isinstance(n, ast.Assert):
            states = self.expr(n.test, states)
            self.expr(n.msg, self.branch(n.test, states, False))
            return self.branch(n.test, states, True)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            states = self.expr(n.iter, states)
            return self.loop(n, states, ctl)
        if isinstance(n, ast.While):
            return self.loop(n, states, ctl)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                states = self.expr(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.assign(i.optional_vars, states)
            return self.block(n.body, states, ctl)
        if isinstance(n, ast.Try):
            return self.trying(n, states, ctl)
        if isinstance(n, ast.Break):
            ctl['break'] |= states
            return set()
        if isinstance(n, ast.Continue):
            ctl['continue'] |= states
            return set()
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id in self.locals:
                    self.read(t, states)
                    states = {State(s.set - {t.id}, s.maybe - {t.id}, self.kill(s, t.id), s.fresh) for s in states}
                else:
                    states = self.expr(t, states)
            return states
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                states = self.expr(d, states)
            if isinstance(n, ast.ClassDef):
                for d in n.bases:
                    states = self.expr(d, states)
            else:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    states = self.expr(d, states)
            return self.put(n.name, states)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                states = self.put((a.asname or a.name).split('.')[0], states)
            return states
        if isinstance(n, (ast.Expr,)):
            states = self.expr(n.value, states)
            return set() if no_return(n.value) else states
        if isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal)):
            return states
        raise GiveUp()

    def loop(self, n, states, ctl):
        isfor = not isinstance(n, ast.While)
        inside = list(n.body) + ([n.target] if isfor else [])
        ch = frozenset(self.changed(inside))
        never = False            # a run without any turn is impossible
        if isfor and isinstance(n.iter, (ast.Tuple, ast.List, ast.Set)) and n.iter.elts and not any(isinstance(e, ast.Starred) for e in n.iter.elts):
            never = True
        if isfor and isinstance(n.iter, ast.Constant) and n.iter.value:
            never = True
        if isfor and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'xrange') and len(n.iter.args) == 1 and isinstance(n.iter.args[0], ast.Constant) \
                and isinstance(n.iter.args[0].value, int) and n.iter.args[0].value > 0:
            never = True
        forever = not isfor and isinstance(n.test, ast.Constant) and bool(n.test.value)
        self.loops.append(ch)
        entry = {State(s.set, s.maybe, frozenset((k, v) for k, v in s.facts if not any(("id='%s'" % c) in k for c in ch)), s.fresh - ch) for s in states}
        turn = entry
        if isfor:
            turn = self.assign(n.target, turn)
        else:
            turn = self.expr(n.test, turn)
            turn = self.branch(n.test, turn, True)
        c2 = {'break': set(), 'continue': set()}
        end = self.block(n.body, turn, c2) | c2['continue']
        self.loops.pop()
        zero = set()
        if not never and not forever:
            # nothing ran: what the loop sets may be missing
            zero = {State(s.set, s.maybe | (ch & self.locals), s.facts, s.fresh) for s in entry}
            if not isfor:
                zero = self.branch(n.test, zero, False)
        done = zero | (set() if forever else end)
        if not isfor and not forever:
            done = zero | self.branch(n.test, end, False)
        done = {State(s.set, s.maybe, s.facts, s.fresh) for s in done}
        done = self.block(n.orelse, self.cap(done), ctl)
        return self.cap(done | c2['break'])

    def trying(self, n, states, ctl):
        at = set()
        cur = states
        for st in n.body:
            if may_raise(st):
                at |= cur
                if not isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise)):
                    # inside a compound statement anything it sets may or may not be set
                    ch = self.changed([st]) & self.locals
                    at |= {State(s.set, s.maybe | ch, s.facts, s.fresh) for s in cur}
                    at -= cur if ch else set()
            cur = self.block([st], cur, ctl)
        at = self.cap(at)
        out = self.block(n.orelse, cur, ctl)
        for h in n.handlers:
            hs = at
            if h.type is not None:
                hs = self.expr(h.type, hs)
            if h.name:
                hs = self.put(h.name, hs)
            hs = self.block(h.body, hs, ctl)
            if h.name:
                hs = {State(s.set - {h.name}, s.maybe, s.facts, s.fresh) for s in hs}
            out = out | hs
        if n.finalbody:
            if not n.handlers or not any(h.type is None for h in n.handlers):
                self.block(n.finalbody, at, {'break': set(), 'continue': set()})
            out = self.block(n.finalbody, out, ctl)
        return self.cap(out)


def may_raise(st):
    for x in ast.walk(st):
        if isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp, ast.Raise, ast.Compare, ast.For, ast.With, ast.Assert, ast.Yield, ast.YieldFrom)):
            return True
    return False
