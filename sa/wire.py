"""Alignment of a reader's effect tree with a writer's.

Both trees come from pe.extract.  The aligner walks them in step, relating each wire
field the reader consumes to the value the writer put there (sigma), and checks that
feeding the written values through the reader's own bindings gives the properties
back.  Anything not understood makes the unit undecided, never a finding."""
from . import terms as T
from .terms import C, is_c, cv, UNSET
from .pe import P, Loop, ExtLoop, Alt, Opaque, Raise

WIDTH = {'u8': 1, 's8': 1, 'bool': 1, 'u16': 2, 's16': 2, 'u32': 4, 's32': 4, 'u64': 8, 's64': 8,
         'double': 8, 'fourcc': 4, 'ref': 4, 'exp10': 6, 'datetime': 4, 'rect': 10, 'rgb': 8,
         'uuid': 28, 'mob_id': 49, 'raw_uuid': 16, 'float': 4}


class Undecided(Exception):
    def __init__(self, reason, node=None):
        Exception.__init__(self, reason)
        self.reason = reason
        self.node = node


class Mismatch(Exception):
    def __init__(self, rule, msg, r=None, w=None):
        Exception.__init__(self, msg)
        self.rule = rule
        self.msg = msg
        self.r = r
        self.w = w


def loc(n):
    return "%s:%d" % (n.file, n.line) if n is not None else "end"


def only(l):
    """effect list without nodes that have no wire effect"""
    return [n for n in l if not isinstance(n, Raise)]


def replace(t, s, v):
    """replace subterm s by v and re-simplify"""
    def rep(x):
        if x == s:
            return v
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == 'c':
            return x
        y = tuple(rep(z) if isinstance(z, tuple) else z for z in x)
        return y
    if t == s:
        return v
    return T.subst(rep(t), {})


def facts_of(c, truth):
    """[(term, replacement)] implied by condition c having the given truth value"""
    if c[0] == 'not':
        return facts_of(c[1], not truth)
    if c[0] == 'boolv':
        return facts_of(c[1], truth)
    if c[0] == 'and' and truth or c[0] == 'or' and not truth:
        return facts_of(c[1], truth) + facts_of(c[2], truth)
    if c[0] == 'ite':
        # chains with one constant arm
        if is_c(c[2]) and bool(cv(c[2])) != truth:
            return facts_of(c[1], False) + facts_of(c[3], truth)
        if is_c(c[3]) and bool(cv(c[3])) != truth:
            return facts_of(c[1], True) + facts_of(c[2], truth)
        return [(c, C(truth))]
    if is_c(c):
        return []
    out = [(c, C(truth))]
    if c[0] == 'cmp' and is_c(c[3]):
        n = T.neg(c)
        if n[0] == 'cmp':
            out.append((n, C(not truth)))
        zero = False
        if c[2][0] == 'len':
            k = cv(c[3])
            zero = (c[1], k, truth) in (('!=', 0, False), ('==', 0, True), ('>', 0, False), ('<=', 0, True), ('>=', 1, False), ('<', 1, True))
            if zero:
                out.append((c[2], C(0)))
                out.append((('truthy', c[2][1]), C(False)))
    if c[0] == 'truthy' and not truth:
        out.append((('len', c[1]), C(0)))
    return out


def fold_tree(l, f):
    """apply f to every condition of an effect list, splicing decided branches"""
    out = []
    for n in l:
        if isinstance(n, Alt):
            c = T.truth(f(n.cond))
            if is_c(c):
                out.extend(fold_tree(n.a if cv(c) else n.b, f))
            else:
                m = Alt(c, fold_tree(n.a, f), fold_tree(n.b, f))
                m.line, m.file, m.func = n.line, n.file, n.func
                out.append(m)
        else:
            out.append(n)
    return out


# ---- conditions -------------------------------------------------------------

def atoms(c, out):
    if c[0] in ('and', 'or'):
        atoms(c[1], out)
        atoms(c[2], out)
    elif c[0] == 'not':
        atoms(c[1], out)
    elif c[0] == 'boolv':
        atoms(c[1], out)
    elif is_c(c):
        pass
    elif c[0] == 'ite':
        atoms(c[1], out)
        atoms(c[2], out)
        atoms(c[3], out)
    else:
        out.append(c)
    return out


def ev(c, env):
    if is_c(c):
        return bool(cv(c))
    if c[0] == 'and':
        return ev(c[1], env) and ev(c[2], env)
    if c[0] == 'or':
        return ev(c[1], env) or ev(c[2], env)
    if c[0] == 'not':
        return not ev(c[1], env)
    if c[0] == 'boolv':
        return ev(c[1], env)
    if c[0] == 'ite':
        return ev(c[2], env) if ev(c[1], env) else ev(c[3], env)
    return env(c)


def subject(a):
    """(subject term, predicate on a concrete value) of an atom, or (atom, None)"""
    if a[0] == 'cmp' and is_c(a[3]) and not is_c(a[2]):
        s = a[2]
        k = cv(a[3])
        op = a[1]

        def p(v):
            try:
                return bool(T.CMP[op](v, k))
            except TypeError:
                return False
        if s[0] == 'op' and s[1] in ('&', '%', '//', '>>') and is_c(s[3]):
            inner, kk, o = s[2], cv(s[3]), s[1]
            fn = {'&': lambda v: v & kk, '%': lambda v: v % kk, '//': lambda v: v // kk, '>>': lambda v: v >> kk}[o]

            def p2(v):
                try:
                    return p(fn(v))
                except TypeError:
                    return False
            return inner, p2
        return s, p
    if a[0] == 'truthy':
        s = a[1]
        if s[0] == 'op' and s[1] in ('&', '%', '//', '>>') and is_c(s[3]):
            inner, kk, o = s[2], cv(s[3]), s[1]
            fn = {'&': lambda v: v & kk, '%': lambda v: v % kk, '//': lambda v: v // kk, '>>': lambda v: v >> kk}[o]

            def p3(v):
                try:
                    return bool(fn(v))
                except TypeError:
                    return False
            return inner, p3
        return s, bool
    return a, None


def consts_of(a, out):
    for x in T.walk(a):
        if is_c(x):
            v = cv(x)
            if isinstance(v, (tuple, frozenset)):
                out.update(v)
            elif isinstance(v, (int, str, bytes, float)) or v is None:
                out.add(v)
    return out


def relate(c1, c2):
    """'eq', 'neg', 'diff' or '?': how two conditions relate, by enumerating the finite
    orderings of the constants they compare against"""
    if c1 == c2:
        return 'eq'
    if T.neg(c1) == c2 or T.neg(c2) == c1:
        return 'neg'
    if T.has_unk(c1) or T.has_unk(c2):
        return '?'
    al = []
    for a in atoms(c1, []) + atoms(c2, []):
        if a not in al:
            al.append(a)
    subs = {}
    # len(x) and truthiness of x speak about the same thing
    lens = {a[2][1] for a in al if a[0] == 'cmp' and a[2][0] == 'len'}
    for a in al:
        s, p = subject(a)
        if s in lens:
            s = ('len', s)
            p = bool
        subs.setdefault(s, []).append((a, p))
    for x in al:
        for y in T.walk(x):
            if y[0] in ('call', 'lookup', 'wire', 'loopout', 'exttag', 'obj', 'global'):
                return '?'
    import itertools
    doms = []
    keys = list(subs)
    for s in keys:
        lst = subs[s]
        if any(p is None for _, p in lst):
            if len({a for a, _ in lst}) == 1:
                doms.append([False, True])
                continue
            return '?'
        ks = set()
        for a, _ in lst:
            consts_of(a, ks)
        if all(isinstance(k, int) for k in ks):
            d = set()
            for k in ks:
                d |= {k - 1, k, k + 1}
            d |= {0, 1} | {1 << i for i in range(16)} | {0xffff}
            if s[0] == 'len':
                d = {x for x in d if x >= 0}
            doms.append(sorted(d))
        else:
            d = set(ks) | {'\0other', None}
            doms.append(list(d))
    n = 1
    for d in doms:
        n *= len(d)
    if n > 200000:
        return '?'
    same = opp = True
    for vals in itertools.product(*doms):
        val = dict(zip(keys, vals))

        def env(a):
            for s in keys:
                for b, p in subs[s]:
                    if b == a:
                        return p(val[s]) if p is not None else val[s]
            return False
        x, y = ev(c1, env), ev(c2, env)
        if x != y:
            same = False
        else:
            opp = False
        if not same and not opp:
            return 'diff'
    return 'eq' if same else 'neg'


# ---- what the reader binds -----------------------------------------------------

class Binds(object):
    """paths bound by a reader: [(path, term)]; list/dict shapes by path"""

    def __init__(self, pe):
        self.pe = pe
        self.items = []
        self.shapes = {}
        self.weird = []
        o = pe.heap[pe.self_id]
        for k in sorted(o.fields):
            self.paths(o.fields[k], ('attr', ('self',), k))
        if o.meta.get('listlike'):
            self._list(o, ('self',))
        if o.meta.get('dictlike'):
            self._dict(o, ('self',))

    def _list(self, o, path):
        if o.weird:
            self.weird.append(path)
        self.shapes[path] = o
        if o.elem is not None:
            self.paths(o.elem, ('elem', path))
        for i, x in enumerate(o.items):
            self.paths(x, ('idx', path, C(i)))

    def _dict(self, o, path):
        if o.weird:
            self.weird.append(path)
        for k, v in o.keyed.items():
            if k[0] == 'dyn':
                self.paths(k[1], ('key', path))
                self.paths(v, ('val', path))
            elif k[0] == 'slice':
                self.weird.append(path)
            else:
                self.paths(v, ('idx', path, k))

    def paths(self, v, path, depth=0):
        if depth > 30 or v == UNSET:
            return
        if v[0] == 'ite':
            if v[2][0] in ('obj', 'ite', 'either') or v[3][0] in ('obj', 'ite', 'either') or UNSET in (v[2], v[3]):
                self.paths(v[2], path, depth + 1)
                self.paths(v[3], path, depth + 1)
                return
            self.items.append((path, v))
            return
        if v[0] == 'either':
            self.paths(v[1], path, depth + 1)
            self.paths(v[2], path, depth + 1)
            return
        if v[0] == 'call' and v[1] in T.COERCE and len(v) == 3 and v[2][0] == 'obj':
            return self.paths(v[2], path, depth + 1)
        if v[0] == 'obj':
            o = self.pe.heap.get(v[1])
            if o is None or o.sym is not None:
                return
            if o.kind == 'inst':
                if o.weird:
                    self.weird.append(path)
                self.shapes[path] = o
                for k in sorted(o.fields):
                    self.paths(o.fields[k], ('attr', path, k), depth + 1)
                if o.meta.get('listlike'):
                    self._list(o, path)
                return
            if o.kind == 'list':
                return self._list(o, path)
            if o.kind == 'dict':
                return self._dict(o, path)
            return
        self.items.append((path, v))

    def types(self):
        """path -> Class for elements the reader instantiates"""
        out = {}
        for p, o in self.shapes.items():
            if o.kind == 'inst' and o.cls is not None:
                out[p] = o.cls
                out[generic(p)] = o.cls
        return out


def generic(p):
    """path with constant list positions generalised"""
    if not isinstance(p, tuple):
        return p
    if p[0] == 'idx' and is_c(p[2]) and isinstance(cv(p[2]), int):
        return ('elem', generic(p[1]))
    return tuple(generic(x) if isinstance(x, tuple) and p[0] != 'c' else x for x in p)


def root_prop(p):
    """name of the top-level property a path starts from (None if not a self path)"""
    last = None
    while isinstance(p, tuple) and p[0] in ('attr', 'idx', 'elem', 'key', 'val', 'slice'):
        if p[0] == 'attr' and p[1] == ('self',):
            return p[2]
        if p[0] in ('elem', 'key', 'val', 'idx') and p[1] == ('self',):
            return '{self}'
        p = p[1]
    return last


def self_paths(t):
    """maximal self-rooted paths mentioned in a term"""
    out = []

    def w(x):
        if not isinstance(x, tuple) or not x or x[0] == 'c':
            return
        if x[0] in ('attr', 'idx', 'elem', 'key', 'val') and root_prop(x):
            out.append(x)
            return
        if x[0] == 'has':
            out.append(('attr', x[1], x[2]))
            return
        for y in x[1:]:
            if isinstance(y, tuple):
                w(y)
    w(t)
    return out


# ---- alignment --------------------------------------------------------------

class Align(object):
    def __init__(self, rpe, wpe):
        self.rpe, self.wpe = rpe, wpe
        self.binds = Binds(rpe)
        self.sigma = {}
        self.pairs = 0
        self.groups = []          # (tag, guards, rcase, wnodes, node)
        self.accepted = []        # ExtLoop nodes
        self.notes = []
        self.skipped = []         # (r, w) reader discards
        self.ext_tags_seen = []
        self.used = self._used()
        self.facts = []           # [(atom, bool)] assumptions of the current path

    def _used(self):
        u = set()
        for p, t in self.binds.items:
            u |= T.wires(t)

        def conds(l):
            for n in l:
                if isinstance(n, Alt):
                    u.update(T.wires(n.cond))
                    conds(n.a)
                    conds(n.b)
                elif isinstance(n, Loop):
                    u.update(T.wires(n.count))
                    conds(n.body)
                elif isinstance(n, ExtLoop):
                    for b in n.cases.values():
                        conds(b)
                elif isinstance(n, P):
                    if n.size is not None:
                        u.update(T.wires(n.size))
                    if n.const is not None or n.allowed is not None:
                        u.add(n.id)
        conds(self.rpe.out)
        for a in self.rpe.asserts:
            u |= T.wires(a)
        return u

    def s(self, t):
        return self.under(T.subst(t, self.sigma))

    def under(self, t):
        for a, b in self.facts:
            t = replace(t, a, b)
        return t

    def assume(self, c, truth):
        """context manager: c is known to be `truth` on this path"""
        al = self

        class A(object):
            def __enter__(self_):
                self_.saved = list(al.facts)
                for f in facts_of(c, truth):
                    if f not in al.facts:
                        al.facts.append(f)

            def __exit__(self_, *a):
                al.facts = self_.saved
        return A()

    def run(self):
        R, W = self.rpe.out, self.wpe.out
        rest = self.align(R, 0, W, 0)
        rest = [n for n in rest if not isinstance(n, Raise)]
        if rest:
            if isinstance(rest[0], Opaque):
                raise Undecided(rest[0].reason, rest[0])
            raise Mismatch('extra-write', "the writer emits %s after the last field the reader consumes" % self.desc(rest[0]),
                           None, rest[0])

    def desc(self, n):
        if isinstance(n, P):
            if n.val is not None:
                return "%s of %s" % (n.kind, T.show(n.val))
            b = [T.show(p) for p, t in self.binds.items if n.id in T.wires(t)]
            if n.const is not None:
                return "%s that must be %s" % (n.kind, T.show(n.const))
            return "%s%s" % (n.kind, " into %s" % ", ".join(b[:2]) if b else "")
        if isinstance(n, Loop):
            return "a loop over %s" % T.show(n.count)
        if isinstance(n, ExtLoop):
            return "extension blocks"
        if isinstance(n, Alt):
            return "data conditional on %s" % T.show(n.cond)
        return repr(n)

    # returns what is left of W after consuming all of R
    def align(self, R, i, W, j):
        while True:
            # skip pure raise nodes
            if i >= len(R):
                return W[j:]
            while j < len(W) and isinstance(W[j], Raise):
                raise Undecided('writer refuses', W[j])
            r = R[i]
            if isinstance(r, Opaque):
                raise Undecided(r.reason, r)
            w = W[j] if j < len(W) else None
            if isinstance(w, Opaque):
                raise Undecided(w.reason, w)
            if isinstance(w, Alt):
                c2 = T.truth(self.under(w.cond))
                if is_c(c2):
                    W = W[:j] + (w.a if cv(c2) else w.b) + W[j + 1:]
                    continue
            if isinstance(w, Loop) and self.under(w.count) == C(0):
                j += 1
                continue
            if isinstance(r, Loop) and self.s(r.count) == C(0):
                i += 1
                continue
            if isinstance(r, Raise):
                raise Mismatch('reader-refuses', "the reader refuses what the writer emits here", r, w)
            if isinstance(r, Alt):
                c = T.truth(self.s(r.cond))
                if is_c(c):
                    R = R[:i] + (r.a if cv(c) else r.b) + R[i + 1:]
                    continue
                if isinstance(w, Alt):
                    res = self.alt_alt(c, R, i, W, j)
                    if res is None:
                        i, j = i + 1, j + 1
                        continue
                    return res
                # reader branches on something the writer does not branch on
                return self.split_reader(c, r, R, i, W, j)
            if isinstance(r, ExtLoop):
                W = self.ext(r, W, j)
                j = 0
                i += 1
                continue
            if w is None:
                raise Mismatch('missing-write', "the reader expects %s where the writer has emitted everything" % self.desc(r), r, None)
            if isinstance(w, Alt):
                res = self.w_alt(r, R, i, W, j)
                if isinstance(res, tuple):
                    W = res[1]
                    continue
                return res
            if isinstance(w, ExtLoop):
                raise Undecided('writer loop over extension tags', w)
            if isinstance(r, Loop) and isinstance(w, Loop):
                self.loop_loop(r, w)
                i, j = i + 1, j + 1
                continue
            if isinstance(r, P) and isinstance(w, Loop):
                sh = self.binds.shapes.get(w.base) if w.base is not None else None
                if r.kind == 'raw' and len(w.body) == 1 and isinstance(w.body[0], P) and w.body[0].kind == 'u8' \
                        and w.body[0].val is not None and w.order == 1:
                    self.size_check(r, w.count, w)
                    v = w.body[0].val
                    self.sigma[r.id] = w.base if w.base is not None and v == ('elem', w.base) else ('mapped', w.count, v)
                    self.pairs += 1
                    i, j = i + 1, j + 1
                    continue
                if sh is not None and sh.elem is None and sh.items and not sh.weird:
                    W = W[:j] + self.unroll(w, len(sh.items)) + W[j + 1:]
                    continue
                raise Mismatch('shape', "the writer loops over %s where the reader consumes a single %s"
                               % (T.show(w.count), self.desc(r)), r, w)
            if isinstance(r, Loop) and isinstance(w, P):
                if w.kind == 'raw' and len(r.body) == 1 and isinstance(r.body[0], P) and r.body[0].kind in ('u8',) \
                        and r.body[0].const is None:
                    n = T.len_(w.val)
                    c = self.s(r.count)
                    if T.has_unk(c) or T.has_unk(n) or T.wires(c):
                        raise Undecided('byte loop size', r)
                    if c != n:
                        raise Mismatch('size', "the reader consumes %s bytes where the writer emits %s" % (T.show(c), T.show(n)), r, w)
                    self.sigma[r.body[0].id] = ('elem', w.val)
                    self.pairs += 1
                    i, j = i + 1, j + 1
                    continue
                if T.has_unk(r.count):
                    raise Undecided('reader loop count', r)
                raise Mismatch('shape', "the reader loops %s times where the writer emits a single %s"
                               % (T.show(self.s(r.count)), self.desc(w)), r, w)
            # P / P
            dj = self.prim(r, R, i, W, j)
            i += dj[0]
            j += dj[1]

    def unroll(self, w, n):
        import copy
        out = []

        def sub(l, f):
            res = []
            for b in l:
                p = copy.copy(b)
                if isinstance(b, P):
                    p.val = f(b.val) if b.val is not None else None
                    p.size = f(b.size) if b.size is not None else None
                elif isinstance(b, Alt):
                    p.cond, p.a, p.b = f(b.cond), sub(b.a, f), sub(b.b, f)
                elif isinstance(b, Loop):
                    p.count, p.body = f(b.count), sub(b.body, f)
                    p.base = f(b.base) if b.base is not None else None
                elif isinstance(b, Raise):
                    pass
                else:
                    raise Undecided('unrolling nested structure', w)
                res.append(p)
            return res
        for k in range(n):
            out.extend(sub(w.body, lambda t: replace(t, ('elem', w.base), ('idx', w.base, C(k)))))
        return out

    def prim(self, r, R, i, W, j):
        w = W[j]
        rk, wk = r.kind, w.kind
        self.pairs += 1
        ok = rk == wk
        if not ok:
            if rk == 'u8' and wk == 'bool':
                ok = True
            elif rk == 'bool' and wk == 'u8':
                if is_c(w.val) and cv(w.val) in (0, 1, True, False):
                    ok = True
                elif w.val[0] == 'boolv':
                    ok = True
                else:
                    raise Mismatch('kind', "the reader takes the byte as a flag (1 or not) but the writer emits %s as a plain byte"
                                   % T.show(w.val), r, w)
            elif rk == 'string:macroman' and wk == 'u16' and is_c(w.val) and cv(w.val) in (0, 0xffff):
                self.sigma[r.id] = C('')
                return 1, 1
            elif rk == 'string:utf-8' and wk == 'u16' and is_c(w.val) and cv(w.val) in (0, 0xffff):
                self.sigma[r.id] = C('')
                return 1, 1
        if not ok:
            # fields the reader discards may be grouped differently
            if rk in WIDTH and wk in WIDTH and r.id not in self.used and WIDTH[rk] >= WIDTH[wk]:
                n, k = 0, j
                while k < len(W) and isinstance(W[k], P) and W[k].kind in WIDTH and n < WIDTH[rk]:
                    n += WIDTH[W[k].kind]
                    k += 1
                if n == WIDTH[rk]:
                    for q in W[j:k]:
                        self.skipped.append((r, q))
                    return 1, k - j
            if rk == 'raw' and is_c(r.size) and wk in WIDTH and r.id not in self.used and isinstance(cv(r.size), int):
                n, k = 0, j
                while k < len(W) and isinstance(W[k], P) and W[k].kind in WIDTH and n < cv(r.size):
                    n += WIDTH[W[k].kind]
                    k += 1
                if n == cv(r.size):
                    for q in W[j:k]:
                        self.skipped.append((r, q))
                    return 1, k - j
            if wk == 'raw' and is_c(w.val) and rk in WIDTH and isinstance(cv(w.val), bytes):
                # constant bytes against fixed-width fields
                data = cv(w.val)
                n, k = 0, i
                todo = []
                while k < len(R) and isinstance(R[k], P) and R[k].kind in WIDTH and n < len(data):
                    todo.append((R[k], data[n:n + WIDTH[R[k].kind]]))
                    n += WIDTH[R[k].kind]
                    k += 1
                if n == len(data):
                    for q, d in todo:
                        if q.kind == 'u8' and q.const is not None and cv(q.const) != d[0]:
                            raise Mismatch('constant', "the reader demands %s where the writer emits byte %d" % (T.show(q.const), d[0]), q, w)
                        self.sigma[q.id] = C(d[0]) if q.kind == 'u8' else T.unk('raw constant')
                    return k - i, 1
            if 'raw' in (rk, wk):
                x = r if rk == 'raw' else w
                if x.size is not None and is_c(x.size) and (wk if rk == 'raw' else rk) in WIDTH:
                    raise Mismatch('kind', "the reader consumes %s where the writer emits %s" % (self.desc(r), self.desc(w)), r, w)
                if T.has_unk(w.val if w.val is not None else C(0)) or (r.size is not None and T.has_unk(self.s(r.size))):
                    raise Undecided('raw data against %s' % (wk if rk == 'raw' else rk), r)
            if w.val is not None and T.has_unk(w.val) and False:
                raise Undecided('value')
            raise Mismatch('kind', "the reader consumes %s where the writer emits %s" % (self.desc(r), self.desc(w)), r, w)
        if r.endian != w.endian:
            raise Mismatch('byte-order', "the reader and the writer of this field do not use the same byte order (%s / %s)"
                           % (r.endian or 'file order', w.endian or 'file order'), r, w)
        if rk == 'raw':
            self.size_check(r, w.size if w.size is not None else T.unk('size'), w)
            if w.val is not None and is_c(w.val) and r.const is not None and cv(r.const) != cv(w.val):
                raise Mismatch('constant', "the reader demands %s where the writer emits %s" % (T.show(r.const), T.show(w.val)), r, w)
        val = w.val if w.val is not None else T.unk('value')
        if r.const is not None:
            self.const_check(r, w, val)
        if r.allowed is not None:
            for lf in leaves(val):
                if is_c(lf) and cv(lf) not in r.allowed:
                    raise Mismatch('constant', "the reader accepts only %r but the writer emits %s" % (tuple(r.allowed), T.show(lf)), r, w)
        if r.id not in self.used:
            self.skipped.append((r, w))
        self.sigma[r.id] = val if not (rk == 'bool' and val[0] == 'boolv') else val
        return 1, 1

    def const_check(self, r, w, val):
        for lf in leaves(val):
            if is_c(lf):
                if cv(lf) != cv(r.const):
                    raise Mismatch('constant', "the reader demands %s but the writer emits %s" % (T.show(r.const), T.show(lf)), r, w)
            elif T.has_unk(lf):
                continue
            elif self.s(r.const) == lf:
                continue
            else:
                self.notes.append(('reader-restricts', loc(r), loc(w), "%s must be %s" % (T.show(lf), T.show(r.const))))

    def size_check(self, r, wsize, w):
        rs = self.s(r.size)
        if rs == ('rest',):
            return
        if T.has_unk(rs) or T.has_unk(wsize):
            raise Undecided('size of raw data is not understood', r)
        if rs == wsize:
            return
        if strip_len(rs) == strip_len(wsize):
            return
        if T.wires(rs):
            raise Undecided('size depends on a field without known value', r)
        if is_c(rs) and not is_c(wsize):
            # a fixed-size field: the writer must insist on the length
            for a in self.wpe.asserts:
                if a[0] == 'cmp' and a[1] == '==' and rs in (a[2], a[3]) and wsize in (a[2], a[3]):
                    return
            self.notes.append(('fixed-size', loc(r), loc(w), "%s must be %s" % (T.show(wsize), T.show(rs))))
            return
        raise Mismatch('size', "the reader consumes %s bytes where the writer emits %s" % (T.show(rs), T.show(wsize)), r, w)

    def loop_loop(self, r, w):
        c1, c2 = self.s(r.count), w.count
        if T.has_unk(c1) or T.has_unk(c2):
            raise Undecided('loop count', r)
        if T.wires(c1):
            raise Undecided('loop count depends on an unrelated field', r)
        if strip_len(c1) != strip_len(c2):
            if any(x[0] == 'len' and x[1][0] == 'obj' for x in T.walk(c1)):
                raise Undecided('how long the list is that the reader goes over', r)
            raise Mismatch('count', "the reader repeats %s times but the writer emits %s elements" % (T.show(c1), T.show(c2)), r, w)
        if r.order != w.order:
            raise Mismatch('order', "elements are written and read back in different orders", r, w)
        rest = self.align(r.body, 0, w.body, 0)
        if rest:
            if isinstance(rest[0], Opaque):
                raise Undecided(rest[0].reason, rest[0])
            raise Mismatch('extra-write', "the writer emits %s in the loop which the reader does not consume" % self.desc(rest[0]), r, rest[0])

    def pair_blocks(self, ra, wa, r, w):
        rr = [n for n in ra if isinstance(n, Raise)]
        ww = [n for n in wa if isinstance(n, Raise)]
        if ww and not rr:
            if not only(ra) and not only(wa):
                return
            raise Mismatch('writer-refuses', "the reader accepts data the writer refuses to emit", r, w)
        if rr:
            if ww:
                return
            raise Mismatch('reader-refuses', "the writer emits data the reader refuses", r, w)
        rest = self.align(ra, 0, wa, 0)
        if rest:
            if isinstance(rest[0], Opaque):
                raise Undecided(rest[0].reason, rest[0])
            raise Mismatch('extra-write', "the writer emits %s here which the reader does not consume" % self.desc(rest[0]), r, rest[0])

    def alt_alt(self, c, R, i, W, j):
        r, w = R[i], W[j]
        c2 = T.truth(self.under(w.cond))
        rel = relate(c, c2)
        if rel in ('eq', 'neg'):
            wa, wb = (w.a, w.b) if rel == 'eq' else (w.b, w.a)
            with self.assume(c, True):
                self.pair_blocks(r.a, wa, r, w)
            with self.assume(c, False):
                self.pair_blocks(r.b, wb, r, w)
            return None
        # case split on a common subject
        s = self.common_subject([c, c2])
        if s is not None:
            ks = set()
            self.tree_consts(R[i:i + 1], s, ks, True)
            self.tree_consts(W[j:j + 1], s, ks, False)
            if all(isinstance(k, int) for k in ks):
                dom = sorted({x + d for x in ks for d in (-1, 0, 1)})
            else:
                dom = list(ks) + ['\0other']
            for v in dom:
                f = lambda t: replace(self.s(t), s, C(v))
                ra = fold_tree([r], f)
                wa = fold_tree([w], f)
                self.pair_blocks(ra, wa, r, w)
            return None
        if rel == 'diff':
            raise Mismatch('condition', "the reader expects this data when %s, the writer emits it when %s" % (T.show(c), T.show(c2)), r, w)
        raise Undecided('conditions cannot be related: %s / %s' % (T.show(c), T.show(c2)), r)

    def common_subject(self, conds):
        ss = set()
        for c in conds:
            for a in atoms(c, []):
                if a[0] == 'cmp' and is_c(a[3]):
                    ss.add(a[2])
                else:
                    return None
        if len(ss) == 1:
            s = ss.pop()
            if not T.has_unk(s) and not T.wires(s):
                return s
        return None

    def tree_consts(self, l, s, ks, sub):
        for n in l:
            if isinstance(n, Alt):
                c = self.s(n.cond) if sub else n.cond
                for a in atoms(c, []):
                    if a[0] == 'cmp' and a[2] == s and is_c(a[3]):
                        v = cv(a[3])
                        if isinstance(v, (tuple, frozenset)):
                            ks.update(v)
                        else:
                            ks.add(v)
                self.tree_consts(n.a, s, ks, sub)
                self.tree_consts(n.b, s, ks, sub)

    def split_reader(self, c, r, R, i, W, j):
        """reader branches, writer does not: the writer's data must suit whichever
        branch the reader takes"""
        if T.wires(c) or T.has_unk(c):
            raise Undecided('reader branches on %s' % T.show(c), r)
        saved = dict(self.sigma)
        for keep, drop, tr in ((r.a, r.b, False), (r.b, r.a, True)):
            # a branch that only guards loops which would not run anyway
            if not drop and keep:
                with self.assume(c, tr):
                    if all(isinstance(n, Loop) and self.s(n.count) == C(0) for n in keep):
                        gone = True
                    else:
                        gone = False
                if gone:
                    return self.align(R[:i] + keep + R[i + 1:], i, W, j)
        if [n for n in r.a if isinstance(n, Raise)]:
            return self.align(R[:i] + r.b + R[i + 1:], i, W, j)
        if [n for n in r.b if isinstance(n, Raise)]:
            return self.align(R[:i] + r.a + R[i + 1:], i, W, j)
        with self.assume(c, True):
            ja = self.align(R[:i] + r.a + R[i + 1:], i, W, j)
        sa = dict(self.sigma)
        self.sigma = saved
        with self.assume(c, False):
            jb = self.align(R[:i] + r.b + R[i + 1:], i, W, j)
        for k, v in sa.items():
            if k in self.sigma and self.sigma[k] != v:
                self.sigma[k] = T.ite(c, v, self.sigma[k])
            else:
                self.sigma.setdefault(k, v)
        if not same_nodes(ja, jb):
            raise Undecided('reader branches consume different amounts', r)
        return ja

    def w_alt(self, r, R, i, W, j):
        """writer branches, reader does not"""
        w = W[j]
        if [n for n in w.b if isinstance(n, Raise)]:
            return ('splice', W[:j] + w.a + W[j + 1:])
        if [n for n in w.a if isinstance(n, Raise)]:
            return ('splice', W[:j] + w.b + W[j + 1:])
        a, b = w.a, w.b
        for keep, drop, tr in ((a, b, False), (b, a, True)):
            if not drop and keep:
                with self.assume(w.cond, tr):
                    gone = all(isinstance(n, Loop) and self.under(n.count) == C(0) for n in keep)
                if gone:
                    return ('splice', W[:j] + keep + W[j + 1:])
        for n in a + b:
            if isinstance(n, Opaque):
                raise Undecided(n.reason, n)
        m = self.merge_alt(w, r)
        if m is not None:
            return ('splice', W[:j] + m + W[j + 1:])
        # both continuations must satisfy the reader
        saved = dict(self.sigma)
        if not only(b) or not only(a):
            full = a if only(a) else b
            # optional output, unconditional input
            try:
                with self.assume(w.cond, not only(a)):
                    self.align(R, i, (b if only(a) else a) + W[j + 1:], 0)
            except Mismatch:
                raise Mismatch('conditional-write', "the writer emits %s only when %s; the reader always expects it"
                               % (self.desc(only(full)[0]), T.show(w.cond if only(a) else T.neg(w.cond))), r, only(full)[0])
            self.sigma = dict(saved)
        with self.assume(w.cond, True):
            ja = self.align(R, i, a + W[j + 1:], 0)
        sa = self.sigma
        self.sigma = dict(saved)
        with self.assume(w.cond, False):
            jb = self.align(R, i, b + W[j + 1:], 0)
        sb = self.sigma
        if not same_nodes(ja, jb):
            raise Undecided('writer branches', w)
        self.sigma = {}
        for k in set(sa) | set(sb):
            if k in sa and k in sb:
                self.sigma[k] = T.ite(w.cond, sa[k], sb[k])
            else:
                self.sigma[k] = sa.get(k, sb.get(k))
        return ja

    def merge_alt(self, w, r):
        import copy
        a, b = only(w.a), only(w.b)
        if len(a) != len(b) or not a:
            return None
        out = []
        for x, y in zip(a, b):
            if not isinstance(x, P) or not isinstance(y, P):
                return None
            xv, yv = x.val, y.val
            k = x.kind
            if x.kind != y.kind:
                if x.kind.startswith('string') and y.kind == 'u16' and is_c(yv) and cv(yv) in (0xffff, 0):
                    yv = C('')
                elif y.kind.startswith('string') and x.kind == 'u16' and is_c(xv) and cv(xv) in (0xffff, 0):
                    xv, k = C(''), y.kind
                else:
                    return None
            if k == 'raw':
                return None
            p = copy.copy(x)
            p.kind = k
            p.val = T.ite(w.cond, xv, yv)
            out.append(p)
        return out

    # extension blocks -----------------------------------------------------------
    def ext(self, r, W, j):
        self.accepted.append(r)
        seen = {}
        rest = self.ext_run(r, W[j:], [], seen)
        r.emitted = dict(getattr(r, 'emitted', {}))
        r.emitted.update(seen)
        return rest

    def is_group(self, l, k):
        return k + 1 < len(l) and isinstance(l[k], P) and isinstance(l[k + 1], P) and l[k].kind == 'u8' \
            and l[k + 1].kind == 'u8' and is_c(l[k].val) and cv(l[k].val) == 1

    def ext_run(self, r, W, guards, seen):
        """consume extension groups from the front of W; returns what is left"""
        while W:
            w = W[0]
            if isinstance(w, Opaque):
                raise Undecided(w.reason, w)
            if isinstance(w, Alt):
                c2 = T.truth(self.under(w.cond))
                if is_c(c2):
                    W = (w.a if cv(c2) else w.b) + W[1:]
                    continue
                ok = False
                for br, g in ((w.a, w.cond), (w.b, T.neg(w.cond))):
                    l = only(br)
                    if l and (self.is_group(l, 0) or isinstance(l[0], Alt)):
                        ok = True
                if not ok:
                    if any(isinstance(x, Opaque) for x in w.a + w.b):
                        raise Undecided('opaque in extension block', w)
                    return W
                start = len(self.groups)
                for br, g, tr in ((w.a, w.cond, True), (w.b, T.neg(w.cond), False)):
                    l = only(br)
                    if not l:
                        continue
                    with self.assume(w.cond, tr):
                        rest = self.ext_run(r, l, guards + [g], seen)
                    if rest:
                        if isinstance(rest[0], Opaque):
                            raise Undecided(rest[0].reason, rest[0])
                        if rest[0] is l[0] and len(self.groups) == start:
                            # a nested conditional that is no extension block
                            return W
                        raise Mismatch('ext-extra', "the writer emits %s inside an extension block which the reader does not consume there"
                                       % self.desc(rest[0]), r, rest[0])
                W = W[1:]
                continue
            if isinstance(w, Loop):
                if w.body and self.is_group(w.body, 0):
                    raise Undecided('extension blocks emitted in a loop', w)
                return W
            if isinstance(w, P) and self.is_group(W, 0):
                tagt = W[1].val
                if not is_c(tagt):
                    raise Undecided('computed extension tag', W[1])
                tag = cv(tagt)
                if tag not in r.cases:
                    if tag not in range(0, 48):
                        raise Undecided('extension tag outside the table', W[1])
                    if tag in getattr(r, 'ignored', ()):
                        raise Undecided('the reader ignores this extension tag', W[1])
                    raise Mismatch('ext-unknown', "the writer emits extension block %d which the reader does not accept" % tag, r, W[1])
                case = r.cases[tag]
                for x in case:
                    if isinstance(x, Opaque):
                        raise Undecided(x.reason, x)
                try:
                    rest = self.align(case, 0, W[2:], 0)
                except Mismatch as e:
                    e.ext = tag
                    raise
                self.groups.append((tag, list(guards), case, [n for n in W if not any(n is x for x in rest)], w))
                seen.setdefault(tag, []).append((w, list(guards)))
                self.pairs += 1
                W = rest
                continue
            return W
        return W


def same_nodes(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def leaves(t):
    if t[0] == 'ite':
        return leaves(t[2]) + leaves(t[3])
    if t[0] == 'boolv':
        return [t]
    return [t]


def strip_len(t):
    """sizes: len of coerced values are the lengths of the values themselves"""
    if t[0] == 'len':
        x = t[1]
        while x[0] == 'call' and x[1] in ('bytearray', 'bytes', 'list', 'tuple', 'copy') and len(x) == 3:
            x = x[2]
        return ('len', x)
    if t[0] == 'sum':
        r = C(t[2])
        for x, c in t[1]:
            r = T.add(r, T.mul(strip_len(x), C(c)))
        return r
    return t


INVERSE = {('UUID_le', 'bytes_le'), ('UUID_be', 'bytes')}
LOSSY = ('min', 'max', 'abs', 'round', '.strip', '.lower', '.upper', '.replace', '.rstrip', '.lstrip', 'divmod', '.title')


def strip(t):
    """remove representation changes that keep the value"""
    while True:
        if t[0] == 'call' and t[1] in T.COERCE and len(t) == 3:
            t = t[2]
            continue
        if t[0] == 'boolv' and t[1][0] == 'truthy':
            t = t[1][1]
            continue
        if t[0] == 'ite' and t[1][0] == 'isinst' and t[2] == ('attr', t[1][1], 'value') and t[3] == t[1][1]:
            # a lazily resolved reference stands for the object it names
            t = t[3]
            continue
        if t[0] == 'call' and t[1] == 'decode' and t[2][0] == 'call' and t[2][1] == 'encode':
            if t[3] == t[2][3]:
                t = t[2][2]
                continue
        if t[0] == 'call' and t[1] in ('UUID_le', 'UUID_be') and t[2][0] == 'attr' and \
                (t[1], t[2][2]) in INVERSE:
            t = t[2][1]
            continue
        return t


def crossed(v, p):
    """do two places, alike but for positions, name different constant positions?"""
    if not isinstance(v, tuple) or not isinstance(p, tuple):
        return False
    if v[:1] == ('idx',) and p[:1] == ('idx',) and is_c(v[2]) and is_c(p[2]):
        return v[2] != p[2] or crossed(v[1], p[1])
    if v[:1] == ('c',) or p[:1] == ('c',):
        return False
    return any(crossed(a, b) for a, b in zip(v, p))


def roundtrip(v, path):
    """does value v (in the writer's terms) give back `path`?  'ok', 'default',
    'undecided' or 'lost'"""
    v = strip(v)
    p = path
    if v == p or generic(v) == generic(p):
        return 'lost' if crossed(v, p) else 'ok'
    if v[0] == 'unk' or T.has_unk(v):
        return 'undecided'
    if v[0] == 'ite':
        a, b = roundtrip(v[2], path), roundtrip(v[3], path)
        ps = [generic(x) for x in self_paths(v[1])]
        about = all(x == generic(path) or x[1:2] == generic(path)[1:2] for x in ps) and ps
        if a == 'ok' and b == 'ok':
            return 'ok'
        x = v[3] if a in ('ok', 'default') else v[2]
        y = a if a in ('ok', 'default') else b
        if y in ('ok', 'default') and is_c(strip(x)) and about:
            return 'default'
        if v[1] == ('truthy', path) and a in ('ok', 'default'):
            return 'default'          # falls back to something else when unset
        if 'undecided' in (a, b):
            return 'undecided'
        if y in ('ok', 'default') and is_c(strip(x)) and not cv(strip(x)):
            return 'undecided'
        return 'lost'
    if v[0] == 'boolv' and v[1][0] in ('ite', 'or') and v[1][1] in (('truthy', path), path):
        return 'default'              # the flag, or forced on by something else
    if v[0] == 'boolv' and v[1][0] == 'or' and v[1][2] in (('truthy', path), path):
        return 'default'
    if v[0] == 'elem' and path[0] == 'elem':
        return roundtrip(v[1], path[1])
    if v[0] == 'elem':
        return 'undecided'
    if is_c(v):
        return 'lost'
    if T.wires(v):
        return 'undecided'
    for x in T.walk(v):
        if x[0] in ('call',) and x[1] not in LOSSY and x[1] not in T.COERCE and x[1] not in ('encode', 'decode'):
            return 'undecided'
        if x[0] in ('loopout', 'global', 'lookup', 'fmt', 'obj', 'unpackitem', 'bufval', 'items'):
            return 'undecided'
    return 'lost'
