"""What the two readers of a kind make of the fields: the properties set on the object and what is below them.

Both sides become stores: (path, value, conditions).  For every path the stores that take effect are compared under
all values of the fields the conditions mention; the values of stores that meet are compared as functions of the
fields they are made of."""
import itertools

from .. import terms as T
from ..terms import C, UNSET
from ..pe import P, Loop, ExtLoop, Alt
from . import cpp, vals as V
from .compare import Unknown, WIDTH, MOB_CONTENT, Found, Undecided

FREE = 3
BLOCK = -1


def show(path):
    s = ''
    for k, x in path:
        s += ('.' if s else '') + str(x) if k == 'a' else '[%s]' % (x if k == 'i' else '*') if k in 'i*' else '{key}' if k == 'key' else '{value}'
    return s or 'the object'


class Store(object):
    __slots__ = ('leaf', 'guards', 'n')

    def __init__(self, leaf, guards, n=0):
        self.leaf, self.guards, self.n = leaf, guards, n


class Values(object):
    def __init__(self, walk, quiet=()):
        self.w, self.pe, self.e, self.sp = walk, walk.pe, walk.e, walk.sp
        self.st = walk.e.st
        self.found, self.undecided = [], []
        self.py, self.nat = {}, {}
        self.order = 0
        self.compared = self.leaves = 0
        self.sp.content = self.wire_of
        self.sp.size_of = self.size_of
        self.nodes, self.pcount = {}, {}
        self.register(self.pe.out)
        self.recs = {}
        for r in walk.recs:
            self.recs.setdefault(r.node.id, []).append(r)
        self.tags = {}             # exttag -> {tag}
        self.extl = {}             # exttag -> [(L, b0, b1)]
        for n, t, L, ft in walk.exts:
            self.tags.setdefault(n.tag, set()).add(t)
            b0, b1 = ft[-2][1][2][1][0], ft[-1][1][2][1][0]
            if (L, b0, b1) not in self.extl.setdefault(n.tag, []):
                self.extl[n.tag].append((L, b0, b1))
        self.kcache, self.icache, self.lcache, self.wcache = {}, {}, {}, {}

    def register(self, l):
        for n in l:
            if isinstance(n, P):
                self.nodes[n.id] = n
            elif isinstance(n, Loop):
                self.pcount[n.id] = n.count
                self.register(n.body)
            elif isinstance(n, Alt):
                self.register(n.a)
                self.register(n.b)
            elif isinstance(n, ExtLoop):
                for t in n.cases:
                    self.register(n.cases[t])

    # ---- the Python side
    def python(self):
        o = self.pe.heap[self.pe.self_id]
        if o.weird:
            raise Undecided('what the Python reader stores')
        for k in sorted(o.fields):
            self.pv((('a', k),), o.fields[k], ())
        if o.meta.get('dictlike'):
            self.pdict((), o, ())
        if o.meta.get('listlike'):
            self.plist((), o, ())

    def pv(self, path, t, guards, depth=0):
        if depth > 40:
            raise Undecided('a deep value')
        if t == UNSET:
            return
        if t[0] == 'ite':
            self.pv(path, t[2], guards + (('P', t[1], True),), depth + 1)
            self.pv(path, t[3], guards + (('P', t[1], False),), depth + 1)
            return
        if t[0] == 'obj':
            o = self.pe.heap.get(t[1])
            if o is None or o.sym is not None:
                self.put(self.py, path, ('unknown', 'an object from elsewhere'), guards)
                return
            if o.weird:
                self.put(self.py, path, ('unknown', 'changed in place'), guards)
                return
            if o.kind == 'inst':
                kw = tuple(sorted((k, self.role(v)) for k, v in (o.meta.get('kw') or {}).items()))
                self.put(self.py, path, ('new', o.cls.name if o.cls is not None else '?', kw), guards)
                for k in sorted(o.fields):
                    self.pv(path + (('a', k),), o.fields[k], guards, depth + 1)
                if o.meta.get('listlike'):
                    self.plist(path, o, guards)
                if o.meta.get('dictlike'):
                    self.pdict(path, o, guards)
                return
            if o.kind == 'list':
                self.put(self.py, path, ('new', 'list', ()), guards)
                return self.plist(path, o, guards)
            self.put(self.py, path, ('unknown', 'a %s' % o.kind), guards)
            return
        self.put(self.py, path, self.pleaf(t), guards)

    def plist(self, path, o, guards):
        if o.elem is not None:
            self.pv(path + (('*', None),), o.elem, guards)
        for i, x in enumerate(o.items):
            self.pv(path + (('i', i),), x, guards)

    def pdict(self, path, o, guards):
        for k, v in o.keyed.items():
            if k[0] == 'dyn':
                self.pv(path + (('key', None),), k[1], guards)
                self.pv(path + (('val', None),), v, guards)
            else:
                self.put(self.py, path + (('val', None),), ('unknown', 'a key'), guards)

    def role(self, v):
        if v == ('root',):
            return 'root'
        if v in (('self',), ('object',)) or v == ('obj', self.pe.self_id):
            return 'self'
        return str(v)

    def pleaf(self, t):
        if t[0] == 'c':
            return ('const', type(t[2]).__name__, t[2]) if t[2] is None or isinstance(t[2], (str, int, bool, bytes)) else ('unknown', 'a constant')
        if t[0] == 'wire':
            return ('wire', t[1])
        if t[0] == 'call' and t[1] == 'bytearray' and len(t) == 3 and t[2][0] == 'wire' and self.sp.kinds.get(t[2][1]) == 'raw':
            return ('array', t[2][1])
        if t[0] == 'unk':
            return ('unknown', str(t[1:])[:60])
        return ('term', t)

    # ---- the compiled side
    def native(self):
        for v, g in self.e.result:
            self.nv((), v, list(g))
        for a, b, g in self.e.items:
            self.nv((('key', None),), a, list(g))
            self.nv((('val', None),), b, list(g))

    def cat(self, a, b):
        return a + [x for x in b if x not in a]

    def nv(self, path, v, guards):
        h = v[0]
        if h == 'dict':
            for key, x, g in v[1].stores:
                if key[0] != 'str':
                    raise Undecided('a key of the compiled reader')
                self.nv(path + (('a', key[1]),), x, self.cat(guards, g))
            return
        if h == 'list':
            self.put(self.nat, path, ('new', 'list', ()), guards)
            for a, x, g in v[1].items:
                if a == 'end':
                    q = ('*', None)
                elif a[0] == 'k':
                    q = ('i', a[1])
                else:
                    raise Undecided('an index of a list of the compiled reader')
                self.nv(path + (q,), x, self.cat(guards, g))
            return
        if h == 'obj':
            o = v[1]
            args, kw = o.args if isinstance(o.args, tuple) and len(o.args) == 2 else (None, None)
            inits = [c for c in o.calls if c[0] == '__init__']
            if inits and len(inits[-1]) > 3 and inits[-1][3]:
                kw = dict(kw or {}, **inits[-1][3])
            self.put(self.nat, path, ('new', o.cls, tuple(sorted((k, self.nrole(x)) for k, x in (kw or {}).items()))), guards)
            for a, x, g in o.attrs:
                if a == 'property_data' and x[0] == 'dict':
                    self.nv(path, x, self.cat(guards, g))
                else:
                    raise Undecided('the attribute %s set by the compiled reader' % a)
            for c in o.calls:
                if c[0] == '__init__':
                    continue
                if c[0] == 'append' and len(c[1]) == 1:
                    self.nv(path + (('*', None),), c[1][0], self.cat(guards, list(c[2])))
                else:
                    raise Undecided('the call of %s by the compiled reader' % c[0])
            return
        if h == 'ite':
            self.nv(path, v[2], guards + [('if', v[1])])
            self.nv(path, v[3], guards + [('if', V.neg(v[1]))])
            return
        if h == 'ref' and v[2].split('[')[0] == 'vector':
            et = v[2][v[2].index('[') + 1:-1]
            self.put(self.nat, path, ('new', 'list', ()), guards)
            for eloc, idx, p in self.e.elements(v[1], {'line': 0}):
                x = self.mem(eloc)
                if x is None:
                    self.put(self.nat, path + (('*', None),), ('unknown', 'elements of a vector'), guards)
                    continue
                q = ('i', idx[1]) if idx[0] == 'k' else ('*', None)
                self.put(self.nat, path + (q,), ('nat', x, et), self.cat(guards, list(p)))
            return
        self.put(self.nat, path, self.nleaf(v), guards)

    def nrole(self, v):
        return 'root' if v == ('root',) else 'self' if v == ('object',) else str(v)

    def nleaf(self, v):
        h = v[0]
        if h == 'none':
            return ('const', 'NoneType', None)
        if h == 'str':
            return ('const', 'str', v[1])
        if h in ('objref', 'nat', 'pycall', 'text', 'slice'):
            return v
        return ('unknown', 'a %s' % h)

    def mem(self, loc):
        return self.strip(self.st.mem.get(loc))

    def strip(self, v):
        while v is not None and v[0] in ('st', 'stc'):
            v = v[2]
        return v

    def put(self, tab, path, leaf, guards):
        self.order += 1
        tab.setdefault(path, []).append(Store(leaf, tuple(guards), self.order))

    # ---- contents of vectors
    def bytes_at(self, loc):
        """{index: (byte id, condition)} of the elements of a vector, index an int or ('iv', L)."""
        out = {}
        n = len(loc)
        for q in self.st.mem:
            if len(q) == n + 1 and q[:n] == loc and q[n][0] == 'e':
                v, c = self.mem(q), None
                if v is not None and v[0] == 'ite':
                    # nothing is there when the condition does not hold
                    c, v = v[1], self.strip(v[2])
                if v is None or v[0] != 'bv' or not v[1] or not isinstance(v[1][0], tuple) or any(s is not None for s in v[1][1:]):
                    raise Unknown('elements of a vector')
                i = q[n][1]
                out[i[1] if i[0] == 'k' else i] = (v[1][0], c)
        return out

    def wires_of(self, loc):
        """[(field, conditions)] a vector may have its content from."""
        if loc in self.wcache:
            r = self.wcache[loc]
        else:
            try:
                r = self._wires_of(loc)
            except Unknown as u:
                r = str(u)
            self.wcache[loc] = r
        if isinstance(r, str):
            raise Unknown(r)
        return r

    def _wires_of(self, loc):
        out = []
        bs = self.bytes_at(loc)
        for i, (b, c) in bs.items():
            if not isinstance(i, tuple) or i[0] != 'iv':
                raise Unknown('the content of a vector')
            own = [o for o in self.sp.owner.get(b, ()) if o[1] == 'str' and i[1] in self.w.content.get(o[0], ())]
            if not own:
                raise Unknown('the content of a vector')
            for w, x, f in own:
                if c is not None and not self.bare(c, w):
                    raise Unknown('the content of a vector')
                if (w, f) not in out:
                    out.append((w, f))
        if not out:
            raise Unknown('the content of a vector')
        return out

    def bare(self, c, w):
        """The field is empty when c does not hold."""
        if not self.sp.kinds[w].startswith('string'):
            return False
        vs = set()
        self.sp.varsN(c, vs)
        if vs != {('n', w)}:
            return False
        for x in self.sp.domain(('n', w), {65535}, True):
            if not self.sp.evN(c, {('n', w): x}) and x not in (0, 65535):
                return False
        return True

    def wire_of(self, loc, asg=None):
        r = self.wires_of(loc)
        if len({w for w, f in r}) == 1:
            return r[0][0]
        if asg is None:
            return [(w, f) for w, f in r]
        for w, f in r:
            if all(self.sp.evF(x, asg) for x in f):
                return w
        return None

    def size_of(self, w):
        """The size of a raw field."""
        n = self.nodes[w]
        return n.size

    def owned(self, b, w, i):
        return any(o[0] == w and o[1] == i for o in self.sp.owner.get(b, ()))

    # ---- comparing
    def run(self):
        try:
            self.python()
            self.native()
        except (Undecided, Unknown, cpp.Unclear) as u:
            self.undecided.append(str(u))
            return
        for path in sorted(set(self.py) | set(self.nat), key=repr):
            try:
                self.path(path)
            except (Undecided, Unknown) as u:
                self.undecided.append('%s: %s' % (show(path), u))

    def contexts(self, ps, ns):
        tags = set()
        for s in ps:
            for g in s.guards:
                self.exttags(g[1], tags)
        loops = {x[1] for s in ns for x in s.guards if x[0] == 'loop'}
        for t, l in self.extl.items():
            if any(L in loops for L, a, b in l):
                tags.add(t)
        out = [()]
        for t in sorted(tags):
            if t not in self.tags:
                raise Undecided('blocks that were not followed')
            for k in sorted(self.tags[t]):
                out.append((t, k))
        return tags, out

    def exttags(self, t, out):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'exttag':
                out.add(t)
                return
            for x in t:
                if isinstance(x, tuple):
                    self.exttags(x, out)

    def subst(self, t, tags, ctx):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'exttag':
                return C(ctx[1] if ctx and ctx[0] == t else BLOCK) if t in tags else t
            return tuple(self.subst(x, tags, ctx) if isinstance(x, tuple) else x for x in t)
        return t

    def facts(self, tags, ctx, inside):
        key = (frozenset(tags), ctx, inside)
        if key in self.kcache:
            return self.kcache[key]
        F = []
        for t in sorted(tags):
            for L, b0, b1 in self.extl[t]:
                if ctx and ctx[0] == t:
                    F.append(('N', ('cmp', 'eq', ('bv', (b0,), False), ('k', 1)), True))
                    F.append(('N', ('cmp', 'eq', ('bv', (b1,), False), ('k', ctx[1])), True))
                else:
                    F.append(('N', ('cmp', 'eq', ('bv', (b0,), False), ('k', 1)), False))
        self.kcache[key] = self.w.known(tuple(F), self.w.preqs + self.w.nreqs + self.w.limits, None if inside else ())
        return self.kcache[key]

    def never(self, c, val, ctx, tags):
        """Whether a native condition fails on the mark or tag of the blocks alone."""
        if c[0] == 'not':
            return self.never(c[1], not val, ctx, tags)
        if c[0] == 'cmp' and c[1] == 'eq' and c[2][0] == 'bv' and len(c[2][1]) == 1 and c[3][0] == 'k':
            b = c[2][1][0]
            for t in tags:
                for L, b0, b1 in self.extl[t]:
                    here = bool(ctx) and ctx[0] == t
                    if b == b0:
                        return ((c[3][1] == 1) == here) != val if c[3][1] == 1 else (val and here)
                    if b == b1 and here:
                        return (c[3][1] == ctx[1]) != val
        return False

    def path(self, path):
        ps, ns = self.py.get(path, []), self.nat.get(path, [])
        for s in ps + ns:
            if s.leaf[0] == 'unknown':
                raise Undecided(s.leaf[1])
        tags, ctxs = self.contexts(ps, ns)
        for ctx in ctxs:
            self.context(path, ps, ns, tags, ctx)
        self.compared += 1

    def context(self, path, ps, ns, tags, ctx):
        inside = any(k in ('*', 'key', 'val') for k, x in path)
        facts = self.facts(tags, ctx, inside)
        P, N = [], []
        for s in ps:
            gs, dead = [], False
            for k, c, v in s.guards:
                c2 = self.subst(c, tags, ctx)
                try:
                    r = bool(self.sp.evP(c2, {}))
                    if r != v:
                        dead = True
                        break
                except (Unknown, KeyError):
                    gs.append(('P', c2, v))
            if not dead:
                P.append((s, gs))
        for s in ns:
            gs, dead = [], False
            # what is taken outside of the blocks does not happen in them
            loops = {x[1] for x in s.guards if x[0] == 'loop'}
            mine = {t for t in tags if any(L in loops for L, a, b in self.extl[t])}
            if any(not ctx or ctx[0] != t for t in mine):
                continue
            for g in s.guards:
                if g[0] == 'if' and self.never(g[1], True, ctx, tags):
                    dead = True
                    break
            if dead:
                continue
            for g in s.guards:
                if g[0] != 'if':
                    continue
                r = self.implied(g[1], facts, (frozenset(tags), ctx, inside))
                if r is True:
                    continue
                if r == 'void':
                    dead = True
                    break
                gs.append(('N', g[1], True))
            if not dead:
                N.append((s, gs))
        if not P and not N:
            return
        self.meet(path, P, N, facts, ctx)

    def implied(self, c, facts, key):
        k = (c, key)
        if k not in self.icache:
            self.icache[k] = self.sp.decide(('N', c, True), facts)[0]
        return self.icache[k]

    def repeated(self, s, side):
        """The conditions under which the loops a store is in are entered."""
        out = []
        if side == 'P':
            w = s.leaf[1] if s.leaf[0] in ('wire', 'array') else None
            for r in self.recs.get(w, ())[:1]:
                for l in r.loops:
                    if l in self.pcount:
                        out.append(('P', ('cmp', '>', self.pcount[l], C(0)), True))
        else:
            loops = self.e.index()[1]
            for g in s.guards:
                if g[0] == 'loop' and g[1] in loops and loops[g[1]][0] is not None:
                    out.append(('N', ('cmp', 'lt', ('k', 0), loops[g[1]][0]), True))
        return out

    def meet(self, path, P, N, facts, ctx, strict=False):
        tests, free = [], []
        if strict:
            P = [(s, gs + self.repeated(s, 'P')) for s, gs in P]
            N = [(s, gs + self.repeated(s, 'N')) for s, gs in N]
        for s, gs in P + N:
            for g in gs:
                try:
                    self.sp.cur = frozenset(facts)
                    self.sp.varsF(g, set())
                    if g not in tests:
                        tests.append(g)
                except Unknown:
                    c, neg = self.atom(g)
                    if c not in free:
                        free.append(c)
        if len(free) > FREE:
            raise Undecided('conditions that are not understood')
        for s, gs in P:
            self.leafvars(s.leaf, tests)
        for s, gs in N:
            self.leafvars(s.leaf, tests)
        g = self.sp.assignments(tests, facts)
        pairs = {}
        for asg in g():
            pick = None
            for s, gs in P:
                if self.on(gs, asg, {}):
                    pick = s
            a = self.norm(pick, asg)
            outs = []
            for vals in itertools.product((False, True), repeat=len(free)):
                env = dict(zip(free, vals))
                last = None
                for s, gs in N:
                    if self.on(gs, asg, env):
                        last = s
                if last not in [x for x, e in outs]:
                    outs.append((last, env))
            for last, env in outs:
                b = self.norm(last, asg)
                if a == b:
                    continue
                k = (a, b)
                if k not in pairs:
                    pairs[k] = (asg, pick, last, len(outs) > 1)
        for (a, b), (asg, pick, last, loose) in sorted(pairs.items(), key=lambda x: repr(x[0])):
            if a is not None and b is not None:
                r = self.equal(a, b, facts, pick, last, P, N)
                self.leaves += 1
                if r is None:
                    continue
                why = r
            else:
                if not strict and any(k == '*' for k, x in path):
                    return self.meet(path, P, N, facts, ctx, True)
                why = self.sp.show(asg)
            if loose or g.unknown:
                raise Undecided('conditions that are not understood')
            self.report(path, a, b, why, ctx, pick, last)
            return

    def atom(self, g):
        c, neg = g[1], not g[2]
        while c[0] == 'not':
            c, neg = c[1], not neg
        return (g[0], c), neg

    def on(self, gs, asg, free):
        for g in gs:
            k, neg = self.atom(g)
            if k in free:
                if free[k] == neg:
                    return False
            elif not self.sp.evF(g, asg):
                return False
        return True

    def leafvars(self, leaf, tests):
        """What the form of a value depends on."""
        def add(t):
            if t not in tests:
                tests.append(t)
        if leaf[0] == 'wire':
            k = self.sp.kinds.get(leaf[1])
            if k is None:
                raise Undecided('a field that was not followed')
            if k.startswith('string'):
                add(('P', ('truthy', ('wire', leaf[1])), True))
            elif k == 'raw':
                add(('P', ('cmp', '>', self.size_of(leaf[1]), C(0)), True))
        elif leaf[0] == 'array':
            add(('P', ('cmp', '>', self.size_of(leaf[1]), C(0)), True))
        elif leaf[0] == 'text':
            add(('N', ('pyt', leaf), True))
        elif leaf[0] == 'slice' and leaf[1] is not None and leaf[3] == ('whole',) and self.fixed(leaf[1]) is None:
            add(('N', ('nonempty', leaf[1]), True))

    def norm(self, s, asg):
        if s is None:
            return None
        leaf = s.leaf
        h = leaf[0]
        if h == 'wire':
            k = self.sp.kinds[leaf[1]]
            if k.startswith('string'):
                v = self.sp.pyval(leaf[1], asg)
                return ('const', 'str', '') if v == '' else ('text', leaf[1], k.split(':')[1] if ':' in k else '?')
            if k == 'raw':
                return ('bytes', 'bytes', leaf[1] if self.sp.evP(self.size_of(leaf[1]), asg) > 0 else None)
            return leaf
        if h == 'array':
            return ('bytes', 'bytearray', leaf[1] if self.sp.evP(self.size_of(leaf[1]), asg) > 0 else None)
        if h == 'text':
            w, enc = self.text(leaf, asg)
            if w is None:
                return ('const', 'str', '')
            return ('const', 'str', '') if asg[('s', w)] < 2 else ('text', w, enc)
        if h == 'slice':
            if leaf[1] is None:
                return ('bytes', leaf[4], None)
            if leaf[3] == ('whole',) and leaf[2] == ('k', 0):
                x = self.fixed(leaf[1])
                if x is not None:
                    return ('run', x, leaf[4])
                w = self.wire_of(leaf[1], asg)
                if w is None:
                    return ('bytes', leaf[4], None)
                if self.sp.kinds[w] != 'raw':
                    raise Undecided('the bytes of a string')
                return ('bytes', leaf[4], w if self.sp.evP(self.size_of(w), asg) > 0 else None)
            raise Undecided('a part of a vector')
        return leaf

    def fixed(self, loc):
        """The bytes of a vector of a fixed number of elements, each set once."""
        try:
            bs = self.bytes_at(loc)
        except Unknown:
            return None
        if not bs or any(not isinstance(i, int) for i in bs) or sorted(bs) != list(range(len(bs))) or any(c is not None for b, c in bs.values()):
            return None
        return tuple(bs[i][0] for i in range(len(bs)))

    def text(self, leaf, asg):
        """(field, encoding) of a text made by the compiled reader."""
        x, enc = leaf[1], leaf[2].lower().replace('_', '-')
        enc = {'mac-roman': 'macroman', 'macintosh': 'macroman', 'utf8': 'utf-8'}.get(enc, enc)
        if x[0] != 'stripped' or x[2] not in ('\x00', b'\x00'):
            raise Undecided('a text of the compiled reader')
        x = x[1]
        if x[0] != 'slice' or x[2] != ('k', 0) or x[3] != ('whole',):
            raise Undecided('a text of the compiled reader')
        w = self.wire_of(x[1], asg)
        if w is not None and not self.sp.kinds[w].startswith('string'):
            raise Undecided('a text made of plain bytes')
        return w, enc

    def equal(self, a, b, facts, p, n, P, N):
        """None when equal, else in what they differ."""
        key = (a, b, id(p), id(n), len(facts), self.sp.stamp([]), facts[:6])
        if key not in self.lcache:
            self.lcache[key] = self._equal(a, b, facts, dict((id(s), gs) for s, gs in P).get(id(p), []), dict((id(s), gs) for s, gs in N).get(id(n), []))
        return self.lcache[key]

    def _equal(self, a, b, facts, pg, ng):
        if a[0] == 'new' or b[0] == 'new':
            if a[0] != 'new' or b[0] != 'new':
                return 'one is made of parts, the other not'
            return None if a == b else 'they are %s and %s' % (self.name(a), self.name(b))
        if a[0] == 'term':
            if b[0] == 'nat':
                return self.number(a[1], b, facts, pg, ng)
            raise Undecided('a computed value')
        if a[0] == 'const':
            if b[0] == 'const':
                return 'they are %r and %r' % (a[2], b[2])
            if b[0] == 'nat' and isinstance(a[2], (int, bool)):
                return self.number(C(a[2]), b, facts, pg, ng)
            return 'one is %r' % (a[2],)
        if b[0] == 'const':
            return 'one is %r' % (b[2],)
        if a[0] in ('text', 'bytes') or b[0] in ('text', 'bytes'):
            if a[0] != b[0]:
                return 'one is a %s, the other is not' % ('text' if 'text' in (a[0], b[0]) else 'run of bytes')
            if a[0] == 'text' and a[1] == b[1]:
                return 'they are decoded as %s and %s' % (a[2], b[2])
            if a[0] == 'bytes' and a[2] == b[2]:
                return None                     # bytes and bytearray of the same bytes are equal
            return 'they are of different bytes'
        if a[0] == 'wire':
            return self.field(a[1], b, facts, pg, ng)
        raise Undecided('values that are not comparable')

    def name(self, a):
        return a[1] + ''.join(' %s=%s' % x for x in a[2])

    def field(self, w, b, facts, pg, ng):
        k = self.sp.kinds[w]
        if k == 'ref':
            if b[0] != 'objref':
                return 'one is a reference, the other is not'
            if b[1] not in self.e.refok:
                return 'one is refused when it leads nowhere, the other is not'
            return self.number(('wire', w), ('nat', b[1], 'ref'), facts, pg, ng)
        if b[0] == 'objref':
            return 'one is a reference, the other is not'
        if k in ('u8', 's8', 'bool', 'u16', 's16', 'u32', 's32', 'u64', 's64'):
            if b[0] != 'nat':
                return 'one is a number, the other is not'
            if b[1][0] == 'dbl':
                return 'one is a whole number, the other is not'
            if k == 'bool' and b[2] != 'bint':
                pass
            return self.number(('wire', w), b, facts, pg, ng)
        if k == 'datetime':
            if b[0] != 'pycall' or not str(b[1]).startswith('datetime.'):
                return 'one is a date, the other is not'
            if len(b[2]) != 1 or b[2][0][0] != 'nat' or b[1] != 'datetime.fromtimestamp':
                raise Undecided('how a date is made')
            return self.number(('wire', w), b[2][0], facts, pg, ng)
        if k in ('double', 'float'):
            if b[0] == 'nat' and b[1][0] == 'dbl':
                return self.owns(b[1][1], w, range(len(b[1][1])), facts)
            if b[0] == 'nat' and b[1][0] == 'bv':
                return 'one is a floating point number, the other is not'
            raise Undecided('how a floating point number is made')
        if k == 'exp10':
            x = b[1] if b[0] == 'nat' else None
            if x and x[0] == 'bv':
                return 'one is a floating point number, the other is not'
            try:
                if x[0] == 'fop' and x[1] == '*' and x[2][0] == 'i2f' and x[3][0] == 'fop' and x[3][1] == 'pow' and float(x[3][2][1]) == 10.0 and x[3][3][0] == 'i2f':
                    m, e = x[2][1], x[3][3][1]
                    if m[0] == 'bv' and e[0] == 'bv' and len(m[1]) == 4 and len(e[1]) == 2:
                        r = self.owns(m[1] + e[1], w, range(6), facts)
                        if r is None and not (m[2] and e[2]):
                            return 'a part of one is taken as unsigned'
                        return r
            except (TypeError, IndexError, ValueError):
                pass
            raise Undecided('how a floating point number is made')
        if k in ('raw_uuid', 'uuid', 'mob_id'):
            want, size, idx = ('MobID', 32, MOB_CONTENT) if k == 'mob_id' else ('UUID', 16, list(range(16)))
            if b[0] != 'pycall' or b[1] not in ('MobID', 'UUID'):
                raise Undecided('how an id is made')
            if b[1] != want:
                return 'they are ids of different kinds'
            x = b[2][0] if len(b[2]) == 1 else None
            if not x or x[0] != 'bytes_le' or x[1][0] != 'slice' or x[1][2] != ('k', 0) or x[1][3] != ('k', size):
                raise Undecided('how an id is made')
            bs = self.bytes_at(x[1][1])
            if sorted(map(str, bs)) != sorted(map(str, range(size))):
                raise Undecided('the bytes of an id')
            return self.owns([bs[i][0] for i in range(size)], w, idx, facts)
        if k == 'fourcc':
            if b[0] != 'run':
                raise Undecided('how a code of four bytes is made')
            return self.owns(b[1], w, (3, 2, 1, 0), facts)
        raise Undecided('a value of kind %s' % k)

    def owns(self, slots, w, idx, facts):
        idx = list(idx)
        if len(slots) != len(idx):
            return 'they are of another number of bytes'
        for s, i in zip(slots, idx):
            if not isinstance(s, tuple):
                return 'byte %d of one is not of the data' % i
            if s[0] == 'pw':
                raise Undecided('bytes')
            own = self.sp.owner.get(s)
            if not own:
                raise Undecided('a byte that was not followed')
            if not any(o[0] == w and o[1] == i for o in own):
                return 'byte %d is of another field or place' % i
        return None

    def number(self, t, b, facts, pg, ng):
        v = b[1]
        fs = tuple(facts) + tuple(x for x in list(pg) + list(ng) if self.known_vars(x, facts))
        num = ('N', ('cmp', 'eq', v, ('k', 0)), True) if v[0] not in ('cmp', 'and', 'or', 'not') else ('N', v, True)
        tests = [('P', ('cmp', '==', t, C(0)), True), num]
        g = self.sp.assignments(tests, fs)
        n = 0
        for asg in g():
            n += 1
            x, y = self.sp.evP(t, asg) if t[0] != 'wire' or self.sp.kinds[t[1]] not in ('ref', 'datetime') else asg[('w', t[1])], self.sp.evN(v, asg)
            if b[2] == 'bint':
                y = bool(y)
            if x != y:
                if g.unknown:
                    raise Undecided('a number')
                return 'they are %s and %s when %s' % (x, y, self.sp.show(asg))
        return None

    def known_vars(self, f, facts):
        try:
            self.sp.cur = frozenset(facts)
            self.sp.varsF(f, set())
            return True
        except Unknown:
            return False

    def report(self, path, a, b, why, ctx, p, n):
        name = show(path)
        where = None
        if p is not None:
            w = p.leaf[1] if p.leaf[0] in ('wire', 'array') else None
            if w in self.nodes:
                where = self.w.where(self.nodes[w])
        inb = ' in block %d' % ctx[1] if ctx else ''
        if b is None:
            self.found.append(Found('values', 'no %s%s' % (name, inb), 'the compiled reader does not set %s%s, which the Python reader sets%s (%s)' % (name, inb, ' (%s)' % where if where else '', why or 'always'), where))
        elif a is None:
            self.found.append(Found('values', 'sets %s%s' % (name, inb), 'the compiled reader sets %s%s, which the Python reader does not (%s)' % (name, inb, why or 'always'), where))
        else:
            self.found.append(Found('values', 'value of %s%s' % (name, inb), 'the compiled reader sets %s%s to another value than the Python reader%s: %s' % (name, inb, ' (%s)' % where if where else '', why), where))
