"""The Python reader of a kind, as a tree of wire effects (sa.pe), walked in step with the compiled reader of the
same kind, as a tree of bytes taken from the data (sa.native.cpp / cyx).

Every byte the native side takes is owned by a field of the Python side.  Conditions of the two sides are compared
by evaluating both over the critical values of the fields they mention (every constant of the conditions and its
neighbours, the bounds of the type, the bits of the masks; single bytes exhaustively), under the conditions that hold
on the path.  What is not understood makes the kind undecided, never a finding."""
import itertools

from .. import terms as T
from ..pe import P, Loop, ExtLoop, Alt, Raise, Opaque

WIDTH = {'u8': 1, 's8': 1, 'bool': 1, 'u16': 2, 's16': 2, 'u32': 4, 's32': 4, 'u64': 8, 's64': 8,
         'ref': 4, 'datetime': 4}
BLOB = {'double': 8, 'float': 4, 'fourcc': 4, 'exp10': 6, 'raw_uuid': 16, 'mob_id': 49}
SIGNED = {'s8', 's16', 's32', 's64'}
LIMIT = 60000
SIZES = (1 << 31) - 1        # no object is larger


class Undecided(Exception):
    pass


class Unknown(Exception):
    pass


class Found(Exception):
    """A difference."""
    def __init__(self, rule, key, text, where=None):
        Exception.__init__(self, text)
        self.rule, self.key, self.text, self.where = rule, key, text, where


# constants of the mob id form, (offset, width, value); the rest is content
MOB_TAGS = [(0, 1, 65), (1, 4, 12), (17, 1, 68), (19, 1, 68), (21, 1, 68), (23, 1, 68), (25, 1, 72), (30, 1, 70), (33, 1, 70), (36, 1, 65), (37, 4, 8)]
MOB_CONTENT = list(range(5, 17)) + [18, 20, 22, 24] + list(range(26, 30)) + [31, 32, 34, 35] + list(range(41, 49))


def consts(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'k' and isinstance(t[1], int):
            out.add(int(t[1]))
            return
        if len(t) == 3 and t[0] == 'c':
            v = t[2]
            if isinstance(v, (int, bool)):
                out.add(int(v))
            elif isinstance(v, (tuple, list, frozenset, set)):
                for x in v:
                    if isinstance(x, int):
                        out.add(int(x))
            return
        if t and t[0] == 'lin' and isinstance(t[1], int):
            out.add(t[1])
            out.add(-t[1])
        for x in t:
            if isinstance(x, tuple):
                consts(x, out)
            elif isinstance(x, int) and t[0] in ('bits', 'sum'):
                out.add(x)


def masks(t, out):
    if isinstance(t, tuple):
        if len(t) == 4 and t[0] == 'op' and t[1] == '&':
            for x in t[2:]:
                if x[0] == 'k' or x[0] == 'c':
                    consts(x, out)
        for x in t:
            if isinstance(x, tuple):
                masks(x, out)


class Slow(Exception):
    pass


class Space(object):
    """Fields, who owns which byte, and evaluation."""

    def __init__(self, pe):
        self.kinds = {}
        self.owner = {}            # byte id -> [(wire, index, facts)]
        self.cache = {}
        self.lens = None
        self.cur = frozenset()
        self.curk = None
        self.busy = set()
        self.content = self.size_of = None
        self.last = None
        self.fns = {}
        self.version = 0

    # ---- variables
    def wvar(self, n):
        k = self.kinds.get(n)
        if k in WIDTH:
            return ('w', n)
        if k is not None and k.startswith('string'):
            return ('s', n)
        raise Unknown('field %s of kind %s' % (n, k))

    def varsP(self, t, out):
        if not isinstance(t, tuple) or not t or t[0] == 'c':
            return
        if t[0] == 'wire':
            out.add(self.wvar(t[1]))
            return
        if t[0] == 'len':
            x = self.lenterm(t)
            if x is None:
                raise Unknown('len')
            return self.varsP(x, out)
        if t[0] in ('unk', 'call', 'obj', 'attr', 'self'):
            raise Unknown(t[0])
        for x in t[1:]:
            if isinstance(x, tuple):
                self.varsP(x, out)

    def vector(self, v):
        """The vector whose content a condition is about."""
        if v[0] == 'nonempty':
            return v[1]
        x = v[1]
        if x[0] == 'text' and x[1][0] == 'stripped' and x[1][1][0] == 'slice' and x[1][1][3] == ('whole',) and x[1][1][1] is not None:
            return x[1][1][1]
        raise Unknown('a text')

    def lenterm(self, t):
        return self.lens(t) if self.lens else None

    def owners(self, b):
        own = self.owner.get(b)
        if own and len(own) > 1:
            here = [o for o in own if self.cur.issuperset(o[2])]
            if here:
                return [max(here, key=lambda o: len(o[2]))]
            own = [o for o in own if not self.contradicts(o[2])]
            if len({o[:2] for o in own}) == 1:
                return own[:1]
        return own

    def known_bytes(self):
        if self.curk is None or self.curk[0] is not self.cur:
            d = {}
            for f in self.cur:
                if f[0] == 'N' and f[2] and f[1][0] == 'cmp' and f[1][1] == 'eq' and f[1][3][0] == 'k':
                    d[f[1][2]] = f[1][3][1]
            self.curk = (self.cur, d)
        return self.curk[1]

    def contradicts(self, facts):
        """facts cannot hold together with those of the path."""
        d = self.known_bytes()
        for f in facts:
            if f[0] == 'I':
                continue
            if (f[0], f[1], not f[2]) in self.cur:
                return True
            if f[0] == 'N' and f[2] and f[1][0] == 'cmp' and f[1][1] == 'eq' and f[1][3][0] == 'k' and d.get(f[1][2], f[1][3][1]) != f[1][3][1]:
                return True
        return False

    def bytevars(self, b, out):
        own = self.owners(b)
        if b[0] == 'pw':
            out.add(('c', b[1], b[2]))
            return
        if not own:
            out.add(('b', b))
            return
        if b in self.busy:
            raise Unknown('a byte told apart by itself')
        self.busy.add(b)
        try:
            for w, i, facts in own:
                out.add(self.bytevar(w, i))
                if len(own) > 1:
                    for f in facts:
                        self.varsF(f, out)
        finally:
            self.busy.discard(b)

    def bytevar(self, w, i):
        if i == 'n0' or i == 'n1':
            return ('n', w)
        k = self.kinds.get(w)
        return ('w', w) if k in WIDTH else ('c', w, i)

    def varsN(self, v, out):
        if not isinstance(v, tuple) or not v:
            return
        h = v[0]
        if h == 'bv':
            for s in v[1]:
                if isinstance(s, tuple):
                    self.bytevars(s, out)
            return
        if h in ('k', 'str', 'fl', 'flag'):
            return
        if h in ('st', 'stc'):
            return self.varsN(v[2], out)
        if h in ('nonempty', 'pyt') and self.content is not None:
            w = self.content(self.vector(v))
            for w, facts in (w if isinstance(w, list) else [(w, ())]):
                if self.kinds[w] == 'raw':
                    self.varsP(self.size_of(w), out)
                else:
                    out.add(('s', w))
                for f in facts:
                    self.varsF(f, out)
            return
        if h in ('avail', 'avsym', 'iv', 'len', 'lv', 'rem', 'nonempty', 'pyt', 'elem', 'ptr', 'cur', 'unk'):
            raise Unknown(h)
        if h == 'op' and v[1] in ('elem', 'atend'):
            raise Unknown(v[1])
        if h == 'lin':
            for a, c in v[2]:
                self.varsN(a, out)
            return
        for x in v[1:]:
            if isinstance(x, tuple):
                self.varsN(x, out)

    def varsF(self, f, out):
        if f[0] == 'I':
            keep = self.cur
            self.cur = keep | frozenset(f[1])
            try:
                for x in f[1]:
                    self.varsF(x, out)
                if f[2] is not None:
                    self.varsF(f[2], out)
            finally:
                self.cur = keep
            return
        (self.varsP if f[0] == 'P' else self.varsN)(f[1], out)

    def key(self, f, vs):
        """The variables a fact says something about."""
        if f[0] != 'I' or f[2] is None:
            return vs
        out = set()
        keep = self.cur
        self.cur = keep | frozenset(f[1])
        try:
            self.varsF(f[2], out)
        finally:
            self.cur = keep
        return out

    # ---- evaluation
    def pyval(self, n, asg):
        k = self.kinds[n]
        if k in WIDTH:
            r = asg[('w', n)]
            if k == 'bool':
                return r == 1
            if k in SIGNED:
                bits = 8 * WIDTH[k]
                if r >= 1 << (bits - 1):
                    r -= 1 << bits
            return r
        v = asg.get(('s', n))
        if v is None:
            raise Unknown(k)
        return ('text', n) if v == 2 else ''

    def evP(self, t, asg):
        h = t[0]
        if h == 'c':
            return t[2]
        if h == 'wire':
            return self.pyval(t[1], asg)
        if h == 'truthy':
            v = self.evP(t[1], asg)
            return bool(v)
        if h == 'not':
            return not self.evP(t[1], asg)
        if h == 'boolv':
            return bool(self.evP(t[1], asg))
        if h in ('and', 'or'):
            for x in t[1:]:
                if bool(self.evP(x, asg)) == (h == 'or'):
                    return h == 'or'
            return h == 'and'
        if h == 'ite':
            return self.evP(t[2] if self.evP(t[1], asg) else t[3], asg)
        if h == 'cmp':
            a, b = self.evP(t[2], asg), self.evP(t[3], asg)
            op = t[1]
            if isinstance(a, tuple) and op in ('<', '<=', '>', '>='):
                raise Unknown('order')
            if op in ('is', 'is not'):
                r = a is b if (a is None or b is None) else a == b
                return r if op == 'is' else not r
            if isinstance(a, tuple) and a[0] == 'text' and not isinstance(b, tuple) and b not in ('', None):
                raise Unknown('text compared')
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                    '>=': lambda: a >= b, 'in': lambda: a in b, 'not in': lambda: a not in b}[op]()
        if h == 'op':
            a, b = self.evP(t[2], asg), self.evP(t[3], asg)
            if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
                raise Unknown('text')
            op = t[1]
            if op in ('//', '%') and b == 0:
                raise Unknown('division')
            f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b, '&': lambda: a & b,
                 '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}.get(op)
            if f is None:
                raise Unknown(op)
            return f()
        if h == 'sum':
            return t[2] + sum(c * self.evP(x, asg) for x, c in t[1])
        if h == 'bits':
            r = t[2]
            for m, c in t[1]:
                if self.evP(c, asg):
                    r |= m
            return r
        if h == 'tup':
            return tuple(self.evP(x, asg) for x in t[1:])
        if h == 'len':
            x = self.lenterm(t)
            if x is not None:
                return max(0, self.evP(x, asg))
        raise Unknown(h)

    def byteval(self, b, asg):
        if b[0] == 'pw':
            return asg[('c', b[1], b[2])]
        own = self.owners(b)
        if not own:
            return asg[('b', b)]
        pick = own[0]
        if len(own) > 1:
            pick = None
            for o in own:
                if all(self.evF(f, asg) for f in o[2]):
                    pick = o
                    break
            if pick is None:
                raise Unknown('a byte that was not taken')
        w, i, _ = pick
        if i in ('n0', 'n1'):
            return asg[('n', w)] >> (8 * int(i[1])) & 255
        v = self.bytevar(w, i)
        return asg[v] >> (8 * i) & 255 if v[0] == 'w' else asg[v]

    def evN(self, v, asg):
        h = v[0]
        if h == 'k':
            return int(v[1])
        if h == 'bv':
            r, n, sign = 0, len(v[1]), 0
            for i, s in enumerate(v[1]):
                if s == 'S':
                    if sign:
                        r |= 255 << (8 * i)
                    continue
                x = 0 if s is None else self.byteval(s, asg)
                r |= x << (8 * i)
                sign = x >> 7
            if v[2] and n and r >> (8 * n - 1) & 1:
                r -= 1 << (8 * n)
            return r
        if h in ('st', 'stc'):
            return self.evN(v[2], asg)
        if h in ('nonempty', 'pyt') and self.content is not None:
            w = self.content(self.vector(v), asg)
            if w is None:
                return False
            if self.kinds[w] == 'raw':
                return self.evP(self.size_of(w), asg) > 0
            return asg[('s', w)] > (0 if h == 'nonempty' else 1)
        if h == 'lin':
            return v[1] + sum(c * self.evN(a, asg) for a, c in v[2])
        if h == 'not':
            return not self.evN(v[1], asg)
        if h in ('and', 'or'):
            a, b = self.evN(v[1], asg), self.evN(v[2], asg)
            return bool(a) and bool(b) if h == 'and' else bool(a) or bool(b)
        if h == 'cmp':
            a, b = self.evN(v[2], asg), self.evN(v[3], asg)
            return {'eq': a == b, 'lt': a < b, 'le': a <= b, 'ne': a != b}[v[1]]
        if h == 'ite':
            return self.evN(v[2] if self.evN(v[1], asg) else v[3], asg)
        if h == 'flag':
            return 0
        if h == 'op':
            a = self.evN(v[2], asg)
            b = self.evN(v[3], asg) if len(v) > 3 else None
            op = v[1]
            if op in ('/', '%'):
                if b == 0:
                    raise Unknown('division')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == '/' else a - q * b
            f = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                 '<<': lambda: a << b, '>>': lambda: a >> b}.get(op)
            if f is None or b is None:
                raise Unknown(op)
            return f()
        raise Unknown(h)

    def evF(self, f, asg):
        if f[0] == 'I':
            keep = self.cur
            self.cur = keep | frozenset(f[1])
            try:
                for x in f[1]:
                    if not self.evF(x, asg):
                        return True
                return f[2] is not None and self.evF(f[2], asg)
            finally:
                self.cur = keep
        r = bool((self.evP if f[0] == 'P' else self.evN)(f[1], asg))
        return r == f[2]

    # ---- evaluation, compiled: what always has a value as a function of the assignment
    def fast(self, f):
        key = (f, self.cur)
        r = self.fns.get(key, 0)
        if r == 0 or r[0] != self.stamp(()):
            try:
                r = (self.stamp(()), eval('lambda a: ' + self.srcF(f), {}))
            except (Slow, Unknown, MemoryError, RecursionError, SyntaxError):
                r = (self.stamp(()), None)
            self.fns[key] = r
        return r[1]

    def srcF(self, f):
        if f[0] == 'I':
            keep = self.cur
            self.cur = keep | frozenset(f[1])
            try:
                pre = ' and '.join('(%s)' % self.srcF(x) for x in f[1]) or 'True'
                post = self.srcF(f[2]) if f[2] is not None else 'False'
            finally:
                self.cur = keep
            return '((not (%s)) or (%s))' % (pre, post)
        t = (self.srcP if f[0] == 'P' else self.srcN)(f[1])
        return '(bool(%s))' % t if f[2] else '(not %s)' % t

    def srcP(self, t):
        h = t[0]
        if h == 'c':
            v = t[2]
            if v is None or isinstance(v, (int, bool, str, bytes)) or (isinstance(v, tuple) and all(isinstance(x, (int, bool, str, bytes)) for x in v)):
                return '(%r)' % (v,)
            raise Slow()
        if h == 'wire':
            k = self.kinds.get(t[1])
            if k not in WIDTH:
                raise Slow()
            x = 'a[%r]' % (('w', t[1]),)
            if k == 'bool':
                return '(%s == 1)' % x
            if k in SIGNED:
                top = 1 << (8 * WIDTH[k] - 1)
                return '((%s ^ %d) - %d)' % (x, top, top)
            return x
        if h in ('truthy', 'boolv'):
            return 'bool(%s)' % self.srcP(t[1])
        if h == 'not':
            return '(not %s)' % self.srcP(t[1])
        if h in ('and', 'or'):
            return 'bool(%s)' % (' %s ' % h).join(self.srcP(x) for x in t[1:])
        if h == 'ite':
            return '(%s if %s else %s)' % (self.srcP(t[2]), self.srcP(t[1]), self.srcP(t[3]))
        if h == 'cmp' and t[1] in ('==', '!=', '<', '<=', '>', '>=', 'in', 'not in'):
            if t[1] in ('<', '<=', '>', '>=') and any(x[0] == 'c' and not isinstance(x[2], (int, bool)) for x in t[2:4]):
                raise Slow()
            return '(%s %s %s)' % (self.srcP(t[2]), t[1], self.srcP(t[3]))
        if h == 'op':
            if any(x[0] == 'c' and not isinstance(x[2], (int, bool)) for x in t[2:4]):
                raise Slow()
            if t[1] in ('//', '%') and not (t[3][0] == 'c' and t[3][2]):
                raise Slow()
            if t[1] in ('<<', '>>') and t[3][0] != 'c':
                raise Slow()
            if t[1] not in ('+', '-', '*', '//', '%', '&', '|', '^', '<<', '>>'):
                raise Slow()
            return '(%s %s %s)' % (self.srcP(t[2]), t[1], self.srcP(t[3]))
        if h == 'sum':
            return '(%d%s)' % (t[2], ''.join(' + %d * %s' % (c, self.srcP(x)) for x, c in t[1]))
        if h == 'bits':
            return '(%d%s)' % (t[2], ''.join(' | (%d if %s else 0)' % (m, self.srcP(c)) for m, c in t[1]))
        if h == 'len':
            x = self.lenterm(t)
            if x is not None:
                return 'max(0, %s)' % self.srcP(x)
        raise Slow()

    def srcB(self, b):
        if b[0] == 'pw':
            return 'a[%r]' % (('c', b[1], b[2]),), None
        own = self.owners(b)
        if not own:
            return 'a[%r]' % (('b', b),), None
        if len(own) > 1:
            raise Slow()
        w, i, _ = own[0]
        if i in ('n0', 'n1'):
            return '(a[%r] >> %d & 255)' % (('n', w), 8 * int(i[1])), (('n', w), int(i[1]), 2)
        v = self.bytevar(w, i)
        if v[0] == 'w':
            return '(a[%r] >> %d & 255)' % (v, 8 * i), (v, i, WIDTH[self.kinds[w]])
        return 'a[%r]' % (v,), None

    def srcN(self, v):
        h = v[0]
        if h == 'k':
            return '(%d)' % int(v[1])
        if h == 'bv':
            n = len(v[1])
            if 'S' in v[1]:
                raise Slow()
            parts = [None if s is None else self.srcB(s) for s in v[1]]
            whole = [p[1] if p is not None else None for p in parts]
            if whole and whole[0] and all(p is not None and p == (whole[0][0], i, n) for i, p in enumerate(whole)):
                r = 'a[%r]' % (whole[0][0],)
            else:
                r = '(%s)' % (' | '.join('%s << %d' % (p[0], 8 * i) if i else p[0] for i, p in enumerate(parts) if p is not None) or '0')
            if v[2] and n:
                top = 1 << (8 * n - 1)
                r = '((%s ^ %d) - %d)' % (r, top, top)
            return r
        if h in ('st', 'stc'):
            return self.srcN(v[2])
        if h == 'lin':
            return '(%d%s)' % (v[1], ''.join(' + %d * %s' % (c, self.srcN(a)) for a, c in v[2]))
        if h == 'not':
            return '(not %s)' % self.srcN(v[1])
        if h in ('and', 'or'):
            return 'bool(%s %s %s)' % (self.srcN(v[1]), h, self.srcN(v[2]))
        if h == 'cmp':
            return '(%s %s %s)' % (self.srcN(v[2]), {'eq': '==', 'lt': '<', 'le': '<=', 'ne': '!='}[v[1]], self.srcN(v[3]))
        if h == 'ite':
            return '(%s if %s else %s)' % (self.srcN(v[2]), self.srcN(v[1]), self.srcN(v[3]))
        if h == 'op' and v[1] in ('&', '|', '^', '+', '-', '*') and len(v) > 3:
            return '(%s %s %s)' % (self.srcN(v[2]), v[1], self.srcN(v[3]))
        if h == 'op' and v[1] in ('<<', '>>') and len(v) > 3 and v[3][0] == 'k' and 0 <= int(v[3][1]) < 64:
            return '(%s %s %s)' % (self.srcN(v[2]), v[1], self.srcN(v[3]))
        raise Slow()

    # ---- assignments
    def size(self, v):
        if v[0] == 'w':
            return WIDTH[self.kinds[v[1]]]
        return 2 if v[0] == 'n' else 1

    def domain(self, v, cs, many, ms=()):
        if v[0] == 's':
            return [0, 1, 2]
        n = self.size(v)
        if n == 1 and not many:
            return list(range(256))
        top = 1 << (8 * n)
        out = {0, 1, 2, 3, top - 1, top - 2, top >> 1, (top >> 1) - 1}
        for c in cs:
            for d in (-1, 0, 1):
                out.add((c + d) % top)
            if 0 < c < 65:
                for m in (2, 3, 5):
                    out.add(c * m % top)
                    out.add((c * m - 1) % top)
            if 0 < c < top:
                for i in range(c.bit_length()):
                    if c >> i & 1:
                        out.add(1 << i)
                        out.add(c & ~(1 << i))
                out.add(top - 1 - c)
        if n == 2:
            out |= {65534, 65535}
        ms = sorted(m % top for m in ms if 0 < m % top)
        if ms:
            # one bit of every mask, in all combinations
            bits = []
            for m in ms:
                b = m & ~sum(bits)
                if b:
                    bits.append(b & -b)
            bits = bits[:12]
            for q in range(1 << len(bits)):
                out.add(sum(b for i, b in enumerate(bits) if q >> i & 1))
        return sorted(out)

    def sets(self, tests, facts):
        """[(vars, facts)] relevant to the tests, and whether a related fact is not understood."""
        need, unknown = set(), False
        for t in tests:
            self.varsF(t, need)
        pend = []
        for f in facts:
            vs = set()
            try:
                self.varsF(f, vs)
            except Unknown:
                part = set()
                self.partial(f[2][1] if f[0] == 'I' and f[2] is not None else f[1], part)
                pend.append((None, part, part))
                continue
            pend.append((f, vs, self.key(f, vs)))
        rel = []
        grew = True
        while grew:
            grew = False
            for x in list(pend):
                f, vs, ks = x
                if ks & need or (not vs and f is not None):
                    pend.remove(x)
                    if f is None:
                        unknown = True
                        continue
                    rel.append((f, vs))
                    if not vs <= need:
                        need |= vs
                        grew = True
        return need, rel, unknown

    def partial(self, t, out):
        """The variables of a term that is not understood."""
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'wire' and len(t) == 2:
            try:
                out.add(self.wvar(t[1]))
            except Unknown:
                pass
            return
        if t[0] == 'bv':
            for s in t[1]:
                if isinstance(s, tuple):
                    try:
                        self.bytevars(s, out)
                    except Unknown:
                        pass
            return
        for x in t:
            if isinstance(x, tuple):
                self.partial(x, out)

    def assignments(self, tests, facts):
        """All assignments of critical values that agree with the facts; (list, unknown)."""
        self.cur = frozenset(facts)
        if self.last is None or self.last[0] is not facts or self.last[1] != self.stamp(()):
            self.last = (facts, self.stamp(()), {})
        fc = self.last[2]
        need, rel, unknown = self.sets(tests, facts)
        cs = set()
        for t in tests:
            consts(t[1:], cs)
        for f, vs in rel:
            consts(f[1:], cs)
        ms = set()
        for t in tests:
            masks(t[1:], ms)
        for f, vs in rel:
            masks(f[1:], ms)
        order = sorted(need, key=repr)
        doms = {}
        many = sum(1 for v in order if self.size(v) == 1) > 2
        left = list(rel)
        for v in order:
            d = self.domain(v, cs, many, ms)
            mine = [f for f, vs in rel if vs == {v}]
            left = [x for x in left if x[1] != {v}]
            for f in mine:
                ok = []
                fn = self.fast(f)
                if fn is not None:
                    d = [x for x in d if fn({v: x})]
                    continue
                memo = fc.setdefault(f, {})
                for x in d:
                    r = memo.get(x)
                    if r is None:
                        try:
                            r = 1 if self.evF(f, {v: x}) else 0
                        except Unknown:
                            r = 2
                        memo[x] = r
                    if r:
                        ok.append(x)
                        unknown = unknown or r == 2
                d = ok
            doms[v] = d
        total = 1
        for v in order:
            total *= max(1, len(doms[v]))
        if total > LIMIT:
            # keep what is smallest
            for v in sorted(order, key=lambda v: -len(doms[v])):
                if total <= LIMIT:
                    break
                d = doms[v]
                keep = max(4, len(d) * LIMIT // total)
                if keep < len(d):
                    total = total // len(d)
                    step = max(1, len(d) // keep)
                    doms[v] = sorted(set(d[::step]) | {d[0], d[-1]} | {x for x in d if x in cs})
                    total *= len(doms[v])
        # the variables of a fact together, the facts as soon as their variables are there
        todo, seq, checks = list(left), [], []
        placed = set()
        while len(placed) < len(order):
            best = None
            for f, vs in todo:
                m = vs - placed
                if m and (best is None or len(m) < best[0]):
                    best = (len(m), m)
            m = best[1] if best else set(order) - placed
            for v in sorted(m, key=repr):
                seq.append(v)
                placed.add(v)
                checks.append([])
            for x in list(todo):
                if x[1] <= placed:
                    todo.remove(x)
                    checks[-1].append(x[0])
        base = [f for f, vs in left if not vs]

        def gen():
            cur = self.cur
            asg = {}
            its = []
            n = 0
            if not seq:
                if self.good(base, asg, gen):
                    yield {}
                return
            if not self.good(base, asg, gen):
                return
            its.append(iter(doms[seq[0]]))
            while its:
                i = len(its) - 1
                try:
                    x = next(its[-1])
                except StopIteration:
                    its.pop()
                    asg.pop(seq[i], None)
                    continue
                n += 1
                if n > 4 * LIMIT:
                    raise Unknown('too many values')
                asg[seq[i]] = x
                self.cur = cur
                if checks[i] and not self.good(checks[i], asg, gen):
                    continue
                if i + 1 == len(seq):
                    yield dict(asg)
                else:
                    its.append(iter(doms[seq[i + 1]]))
        gen.unknown = unknown
        return gen

    def good(self, fs, asg, gen):
        for f in fs:
            fn = self.fast(f)
            if fn is not None:
                if not fn(asg):
                    return False
                continue
            try:
                if not self.evF(f, asg):
                    return False
            except Unknown:
                gen.unknown = True
        return True

    def decide(self, test, facts):
        """True / False when the test always / never holds, 'both' with witnesses, None when not understood."""
        key = (test, facts, self.stamp([test] + list(facts)))
        if key in self.cache:
            return self.cache[key]
        r = self._decide(test, facts)
        self.cache[key] = r
        return r

    def stamp(self, fs):
        return self.version

    def _decide(self, test, facts):
        yes = no = None
        try:
            g = self.assignments([test], facts)
            fn = self.fast(test) or (lambda asg: self.evF(test, asg))
            for asg in g():
                if fn(asg):
                    yes = yes or asg
                else:
                    no = no or asg
                if yes is not None and no is not None:
                    break
        except Unknown as e:
            return None, str(e), None
        if g.unknown and yes is not None and no is not None:
            return 'maybe', yes, no
        if yes is not None and no is not None:
            return 'both', yes, no
        if yes is not None:
            return True, yes, None
        if no is not None:
            return False, None, no
        return 'void', None, None

    def show(self, asg):
        out = []
        for v, x in sorted((asg or {}).items(), key=repr):
            if v[0] == 'w':
                out.append('field %d = %s' % (v[1], self.pyval(v[1], asg)))
            elif v[0] == 'b':
                out.append('byte = %d' % x)
            elif v[0] == 'n':
                out.append('size of field %d = %d' % (v[1], x))
            elif v[0] == 's':
                out.append('field %d %s' % (v[1], ('empty', 'only zero bytes', 'a text')[x]))
            else:
                out.append('byte %s of field %d = %d' % (v[2], v[1], x))
        return ', '.join(out[:6])


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Rec(object):
    """A field taken on both sides."""
    def __init__(self, node, facts, loops):
        self.node, self.facts, self.loops = node, facts, loops


def bytes_in(l):
    for x in l:
        if x[0] in ('B', 'Loop', 'While', 'Block'):
            if x[0] == 'B' and not x[3]:
                continue
            return True
        if x[0] == 'Alt' and (bytes_in(x[2]) or bytes_in(x[3])):
            return True
    return False


class Walk(object):
    def __init__(self, pe, entry, label):
        self.pe, self.e, self.label = pe, entry, label
        self.sp = Space(pe)
        self.sp.lens = self.lens
        self.preqs, self.nreqs = [], []       # (facts, fact, where, text)
        self.limits = []
        self.needs = []                       # (facts, avsym, where, rest)
        self.recs = []
        self.found = []
        self.undecided = []
        self.content = {}                     # string/raw wire -> native loop
        self.loopmap = {}                     # python loop id -> set of native loops
        self.exts = []
        self.steps = 0
        self.decided = 0
        self.register(pe.out)
        self.elemof = {}
        self.inloops = ()
        self.counts = {}                      # python loop -> its count, when it is understood

    def register(self, l):
        for n in l:
            if isinstance(n, P):
                self.sp.kinds[n.id] = n.kind
            elif isinstance(n, Loop):
                self.register(n.body)
            elif isinstance(n, Alt):
                self.register(n.a)
                self.register(n.b)
            elif isinstance(n, ExtLoop):
                for t in n.cases:
                    self.register(n.cases[t])

    def lens(self, t):
        """The number of items of a list the reader fills in a loop."""
        x = t[1]
        if x[0] != 'obj':
            return None
        o = self.pe.heap.get(x[1])
        if o is None or o.kind != 'list' or o.elem is None or o.items:
            return None
        n = o.elem
        lid = None
        if n[0] == 'obj':
            oo = self.pe.heap.get(n[1])
            if oo is not None and getattr(oo, 'loops', None):
                lid = oo.loops[-1]
        if lid is None or lid not in self.pe.loopinfo:
            return None
        return self.pe.loopinfo[lid][0]

    def find(self, rule, key, text, where=None):
        self.found.append(Found(rule, key, text, where))

    # ---- snapshots
    def mark(self):
        return (len(self.preqs), len(self.nreqs), len(self.needs), len(self.recs), len(self.found), len(self.undecided), dict(self.content),
                {k: set(v) for k, v in self.loopmap.items()}, {k: list(v) for k, v in self.sp.owner.items()}, len(self.exts), len(self.limits))

    def reset(self, m):
        for l, n in ((self.preqs, m[0]), (self.nreqs, m[1]), (self.needs, m[2]), (self.recs, m[3]), (self.found, m[4]), (self.undecided, m[5]), (self.exts, m[9]), (self.limits, m[10])):
            del l[n:]
        self.content = m[6]
        self.loopmap = m[7]
        self.sp.owner = m[8]
        self.sp.version += 1
        self.sp.cache = {}

    # ---- facts of the path: its conditions, and what the Python side has insisted on
    def env(self, facts):
        out = list(facts)
        fs = set(facts)
        for f, r, w, t, l in self.preqs:
            if r is not None and set(f) <= fs and l == self.inloops[:len(l)]:
                out.append(r)
        for f, r, w, t, l in self.nreqs + self.limits:
            if set(f) <= fs and l == self.inloops[:len(l)]:
                out.append(r)
        return tuple(out)

    def norm(self, nl, facts):
        """nl without what takes no bytes in front."""
        i = 0
        while i < len(nl):
            x = nl[i]
            h = x[0]
            if h == 'B':
                if x[3]:
                    return nl[i:]
            elif h == 'Assert':
                self.nreq(x[1], facts, x[2])
            elif h == 'Need':
                self.needs.append((facts, x[1], x[2], nl[i + 1:]))
                need, mult = x[1][2], x[1][3]
                self.limits.append((facts, ('N', ('cmp', 'le', need, ('k', SIZES // max(1, mult))), True), x[2], None, self.inloops))
            elif h == 'Alt':
                d = self.sp.decide(('N', x[1], True), self.env(facts))[0]
                if d is True:
                    nl = x[2] + nl[i + 1:]
                    i = 0
                    continue
                if d is False:
                    nl = x[3] + nl[i + 1:]
                    i = 0
                    continue
                if d == 'void':
                    raise Void()
                if not bytes_in(x[2]) and not bytes_in(x[3]):
                    self.norm(x[2], facts + (('N', x[1], True),))
                    self.norm(x[3], facts + (('N', x[1], False),))
                elif d is None:
                    raise Undecided('a condition of the compiled reader: %s' % str(x[1])[:120])
                else:
                    return nl[i:]
            elif h == 'Loop':
                d = self.sp.decide(('N', ('cmp', 'le', x[2], ('k', 0)), True), self.env(facts))[0] if x[2] is not None else None
                if d is True or not bytes_in(x[3]):
                    i += 1
                    continue
                return nl[i:]
            elif h in ('While', 'Block'):
                return nl[i:]
            i += 1
        return []

    def nreq(self, c, facts, where):
        if c[0] == 'and':
            self.nreq(c[1], facts, where)
            self.nreq(c[2], facts, where)
            return
        if 'flag' in str(c) or 'avail' in str(c) or 'avsym' in str(c) or 'atend' in str(c):
            return
        r = ('N', c, True)
        self.nreqs.append((facts, r, where, None, self.inloops))

    def front(self, nl, facts, want):
        """Bytes certain to come next, up to want."""
        n = 0
        while n < want:
            nl = self.norm_quiet(nl, facts)
            if not nl:
                return n
            x = nl[0]
            if x[0] == 'B':
                n += x[3]
                nl = nl[1:]
            elif x[0] == 'Alt':
                a = self.front(x[2], facts + (('N', x[1], True),), want - n)
                b = self.front(x[3], facts + (('N', x[1], False),), want - n)
                return n + min(a, b)
            else:
                k = self.fixed(x)
                if k is None:
                    return n
                nl = self.unroll(x, k) + nl[1:]
        return want

    def fixed(self, x):
        if x[0] == 'Loop' and x[2] is not None and x[2][0] == 'k' and 0 <= x[2][1] <= 256:
            return x[2][1]
        return None

    def unroll(self, x, k):
        out = []
        for i in range(k):
            out += [('B', ('it', y[1], i), y[2], y[3]) if y[0] == 'B' else y for y in x[3]]
        return out

    def norm_quiet(self, nl, facts):
        a, b, c = len(self.nreqs), len(self.needs), len(self.limits)
        try:
            return self.norm(nl, facts)
        finally:
            del self.nreqs[a:]
            del self.needs[b:]
            del self.limits[c:]

    def take(self, n, nl, facts):
        """n bytes: [[ids]] and the rest; Fork when the two sides of a condition differ."""
        out = []
        while len(out) < n:
            nl = self.norm(nl, facts)
            if not nl:
                raise Short(len(out))
            x = nl[0]
            if x[0] == 'B':
                k = min(x[3], n - len(out))
                out += [[((x[1], x[2] + i), facts)] for i in range(k)]
                nl = ([('B', x[1], x[2] + k, x[3] - k)] if k < x[3] else []) + nl[1:]
            elif x[0] == 'Alt':
                fa, fb = facts + (('N', x[1], True),), facts + (('N', x[1], False),)
                k = min(self.front(x[2], fa, n - len(out)), self.front(x[3], fb, n - len(out)))
                if not k:
                    raise Fork(x[1])
                ia, ra = self.take(k, x[2], fa)
                ib, rb = self.take(k, x[3], fb)
                out += [p + q for p, q in zip(ia, ib)]
                nl = [('Alt', x[1], ra, rb)] + nl[1:]
            else:
                k = self.fixed(x)
                if k is None:
                    raise Other(x[0], x)
                nl = self.unroll(x, k) + nl[1:]
        return out, nl

    def own(self, ids, w, i):
        for b, facts in ids:
            l = self.sp.owner.setdefault(b, [])
            if not any(o == (w, i, facts) for o in l):
                self.sp.version += 1
                l.append((w, i, facts))

    # ---- the walk
    def where(self, n):
        f = getattr(n, 'file', '') or ''
        return '%s:%s' % (f, getattr(n, 'line', 0))

    def what(self, n):
        return '%s in %s' % (n.kind if isinstance(n, P) else type(n).__name__, getattr(n, 'func', '') or 'the reader')

    def heads(self, pl, facts):
        h = self.pe.heads.get(id(pl))
        if h is not None and h[0] is pl:
            for c in h[1]:
                self.preq(c, facts, None)

    def preq(self, c, facts, n):
        if c[0] == 'and':
            for x in c[1:]:
                self.preq(x, facts, n)
            return
        self.preqs.append((facts, ('P', c, True), self.where(n) if n is not None else None, None, self.inloops))

    def after(self, n, facts):
        for c in n.after or ():
            self.preq(c, facts, n)

    def body(self, pl, nl, facts, loops):
        """A list of the Python side against the native list, both to their ends."""
        self.heads(pl, facts)
        return self.seq(list(pl), nl, facts, loops)

    def seq(self, pl, nl, facts, loops):
        keep, self.inloops = self.inloops, loops
        try:
            self._seq(pl, nl, facts, loops)
        except Void:
            pass
        finally:
            self.inloops = keep

    def _seq(self, pl, nl, facts, loops):
        pl = list(pl)
        while pl:
            self.steps += 1
            if self.steps > 20000:
                raise Undecided('too many paths')
            n = pl.pop(0)
            if isinstance(n, Opaque):
                raise Undecided('the Python reader: %s' % n.reason)
            if isinstance(n, Raise):
                self.preqs.append((facts, None, self.where(n), 'raises', self.inloops))
                self.norm(nl, facts)      # what the native side insists on meanwhile
                return
            if isinstance(n, P):
                try:
                    nl = self.field(n, nl, facts, loops)
                except Fork as f:
                    return self.forked([n] + pl, nl, facts, loops, f.cond)
                except Short:
                    raise Found('bytes', 'ends before %s' % self.what(n), 'the compiled reader takes no more bytes where %s (%s) reads %s%s'
                                % (getattr(n, 'func', 'the Python reader'), self.where(n), n.kind, self.when(facts)), self.where(n))
                except Other as o:
                    if o.kind == 'While':
                        raise Found('bytes', 'blocks before %s' % self.what(n), 'the compiled reader looks for optional blocks where %s (%s) reads %s%s'
                                    % (getattr(n, 'func', 'the Python reader'), self.where(n), n.kind, self.when(facts)), self.where(n))
                    raise Undecided('%s against a %s of the compiled reader' % (n.kind, o.kind))
                self.after(n, facts)
                continue
            if isinstance(n, Alt):
                self.after(n, facts)
                d = self.sp.decide(('P', n.cond, True), self.env(facts))
                if d[0] is True or d[0] is False:
                    side = n.a if d[0] else n.b
                    self.heads(side, facts)
                    pl = list(side) + pl
                    continue
                if d[0] == 'void':
                    return
                if d[0] is None:
                    raise Undecided('a condition of the Python reader: %s' % T.show(n.cond)[:100])
                fa, fb = facts + (('P', n.cond, True),), facts + (('P', n.cond, False),)
                nl = self.norm(nl, facts)
                if nl and nl[0][0] == 'Alt':
                    s = self.same(n.cond, nl[0][1], facts)
                    if s is None:
                        raise Undecided('conditions not comparable: %s' % T.show(n.cond)[:100])
                    if s in ('same', 'opposite'):
                        x = nl[0]
                        na, nb = (x[2], x[3]) if s == 'same' else (x[3], x[2])
                        m = self.mark()
                        try:
                            self.body(n.a, na, fa, loops)
                            self.body(n.b, nb, fb, loops)
                            self.decided += 1
                            nl = nl[1:]
                            continue
                        except Found as f:
                            self.reset(m)
                            first = f
                        self.heads(n.a, fa)
                        self.heads(n.b, fb)
                        self.seq(list(n.a) + pl, na + nl[1:], fa, loops)
                        self.seq(list(n.b) + pl, nb + nl[1:], fb, loops)
                        return
                self.heads(n.a, fa)
                self.heads(n.b, fb)
                self.seq(list(n.a) + pl, nl, fa, loops)
                self.seq(list(n.b) + pl, nl, fb, loops)
                return
            if isinstance(n, Loop):
                nl = self.loop(n, nl, facts, loops, pl)
                if nl is None:
                    return
                self.after(n, facts)
                continue
            if isinstance(n, ExtLoop):
                nl = self.ext(n, nl, facts, loops)
                self.after(n, facts)
                continue
            raise Undecided('node %s' % type(n).__name__)
        nl = self.norm(nl, facts)
        while nl:
            x = nl[0]
            if x[0] == 'Alt':
                self.seq([], x[2] + nl[1:], facts + (('N', x[1], True),), loops)
                self.seq([], x[3] + nl[1:], facts + (('N', x[1], False),), loops)
                return
            if x[0] in ('B', 'While'):
                raise Found('bytes', 'goes on', 'the compiled reader takes more bytes than the Python reader%s' % self.when(facts), None)
            if x[0] == 'Loop' and x[2] is not None:
                d = self.sp.decide(('N', ('cmp', 'lt', ('k', 0), x[2]), True), self.env(facts))
                if d[0] in (True, 'both'):
                    raise Found('bytes', 'goes on', 'the compiled reader takes more bytes than the Python reader%s' % self.when(facts, d[1]), None)
            raise Undecided('a %s of the compiled reader is left over' % x[0])

    def when(self, facts, asg=None):
        if asg is None and facts:
            test = facts[-1]
            d = self.sp.decide(test, self.env(facts[:-1]))
            asg = d[1] if d[0] in (True, 'both', 'maybe') else None
        s = self.sp.show(asg)
        return ', when %s' % s if s else ''

    def forked(self, pl, nl, facts, loops, cond):
        """Both sides of the condition nl comes to first."""
        pre, rest = [], list(nl)
        while rest:
            x = rest.pop(0)
            if x[0] == 'Alt' and x[1] == cond:
                self.seq(pl, pre + x[2] + rest, facts + (('N', cond, True),), loops)
                self.seq(pl, pre + x[3] + rest, facts + (('N', cond, False),), loops)
                return
            if x[0] == 'Alt':
                # inside a side of it
                if self.holds(x[2], cond) or self.holds(x[3], cond):
                    self.seq(pl, pre + x[2] + rest, facts + (('N', x[1], True),), loops)
                    self.seq(pl, pre + x[3] + rest, facts + (('N', x[1], False),), loops)
                    return
            pre.append(x)
        raise Undecided('a condition of the compiled reader is lost')

    def holds(self, l, cond):
        return any(x[0] == 'Alt' and (x[1] == cond or self.holds(x[2], cond) or self.holds(x[3], cond)) for x in l)

    def same(self, pc, nc, facts):
        """'same', 'opposite', 'other' or None."""
        a, b = ('P', pc, True), ('N', nc, True)
        try:
            eq = ne = False
            g = self.sp.assignments([a, b], self.env(facts))
            for asg in g():
                if self.sp.evF(a, asg) == self.sp.evF(b, asg):
                    eq = True
                else:
                    ne = True
                if eq and ne:
                    break
        except Unknown:
            return None
        if eq and ne:
            return None if g.unknown else 'other'
        return 'same' if eq else 'opposite' if ne else 'same'

    def field(self, n, nl, facts, loops):
        k = n.kind
        if k in WIDTH or k in BLOB:
            size = WIDTH.get(k) or BLOB[k]
            ids, nl2 = self.take(size, nl, facts)
            for i, x in enumerate(ids):
                self.own(x, n.id, i)
            self.recs.append(Rec(n, facts, loops))
            if n.const is not None:
                if not T.is_c(n.const):
                    raise Undecided('a computed tag')
                self.preqs.append((facts, ('P', ('cmp', '==', ('wire', n.id), n.const), True), self.where(n), 'tag', self.inloops))
            if n.allowed is not None:
                try:
                    al = tuple(T.cv(x) if isinstance(x, tuple) and x and x[0] == 'c' else x for x in n.allowed)
                except TypeError:
                    raise Undecided('the values allowed for a tag')
                self.preqs.append((facts, ('P', ('cmp', 'in', ('wire', n.id), ('c', 'tuple', al)), True), self.where(n), 'tag', self.inloops))
            if k == 'mob_id':
                for off, w, val in MOB_TAGS:
                    for i in range(w):
                        self.preqs.append((facts, ('N', ('cmp', 'eq', ('bv', (('pw', n.id, off + i),), False), ('k', val >> (8 * i) & 255)), True), self.where(n), 'tag', self.inloops))
            return nl2
        if k.startswith('string'):
            ids, nl2 = self.take(2, nl, facts)
            for i, x in enumerate(ids):
                self.own(x, n.id, 'n%d' % i)
            self.recs.append(Rec(n, facts, loops))
            return self.bytesrun(n, nl2, facts, lambda asg: 0 if asg[('n', n.id)] >= 65535 else asg[('n', n.id)], {('n', n.id)})
        if k == 'raw':
            if n.size is None:
                raise Undecided('raw bytes of unknown size')
            vs = set()
            try:
                self.sp.varsP(n.size, vs)
            except Unknown as x:
                raise Undecided('the size of raw bytes: %s' % x)
            self.recs.append(Rec(n, facts, loops))
            if T.is_c(n.size):
                ids, nl2 = self.take(T.cv(n.size), nl, facts)
                for i, x in enumerate(ids):
                    self.own(x, n.id, i)
                return nl2
            return self.bytesrun(n, nl, facts, lambda asg: max(0, self.sp.evP(n.size, asg)), vs, ('P', ('cmp', '==', n.size, n.size), True))
        raise Undecided('a field of kind %s' % k)

    def bytesrun(self, n, nl, facts, want, vs, ptest=None):
        """The native side takes as many single bytes as the Python side."""
        nl = self.norm(nl, facts)
        x = nl[0] if nl else None
        tests, loops = [], []
        if ptest is not None:
            tests.append(ptest)

        def scan(l):
            l = self.norm_quiet(l, facts)
            if not l:
                return ('k', 0)
            y = l[0]
            if y[0] == 'Loop' and y[2] is not None:
                b = self.norm_quiet(y[3], facts)
                if len(b) == 1 and b[0][0] == 'B' and b[0][3] == 1 and len(l) == 1:
                    loops.append((y[1], (b[0][1], b[0][2])))
                    return y[2]
                raise Undecided('a loop of the compiled reader over %s' % n.kind)
            if y[0] == 'Block' and len(l) == 1:
                loops.append((('blk', y[1]), None))
                return y[3] if len(y) > 3 else ('unk',)
            if y[0] == 'Alt' and len(l) == 1:
                return ('ite', y[1], scan(y[2]), scan(y[3]))
            raise Undecided('the bytes of a %s' % n.kind)
        count = ('k', 0)
        used = False
        if x is not None and x[0] in ('Alt', 'Loop', 'Block'):
            cv = set()
            try:
                self.sp.varsN(x[1] if x[0] == 'Alt' else x[2] if x[0] == 'Loop' else x[3], cv)
            except Unknown as u:
                raise Undecided('the number of bytes of a %s: %s' % (n.kind, u))
            if cv & vs:
                count = scan([x])
                used = True
        test = ('N', ('cmp', 'eq', count, ('k', 0)), True)
        bad = None
        try:
            ts = tests + [test]
            if not used and ptest is None:
                bad = {('n', n.id): 1}
            else:
                g = self.sp.assignments(ts, self.env(facts))
                for asg in g():
                    if want(asg) != max(0, self.sp.evN(count, asg)):
                        bad = asg
                        break
                if bad is not None and g.unknown:
                    raise Undecided('the number of bytes of a %s' % n.kind)
        except Unknown as u:
            raise Undecided('the number of bytes of a %s: %s' % (n.kind, u))
        if bad is not None:
            raise Found('bytes', 'content of %s' % self.what(n), 'the compiled reader takes another number of bytes than %s (%s) for the content of a %s, when %s'
                        % (getattr(n, 'func', ''), self.where(n), n.kind, self.sp.show(bad)), self.where(n))
        self.decided += 1
        for L, b in loops:
            self.content.setdefault(n.id, set()).add(L)
            if b is not None:
                self.own([(b, facts)], n.id, 'str')
        if used:
            self.norm(x[3] if x[0] == 'Loop' else [], facts)
            return nl[1:]
        return nl

    def loop(self, n, nl, facts, loops, pl):
        nl = self.norm(nl, facts)
        if T.is_c(n.count) and isinstance(T.cv(n.count), int) and T.cv(n.count) <= 64 and not (nl and nl[0][0] == 'Loop' and self.fixed(nl[0]) == T.cv(n.count)):
            raise Undecided('a loop of constant length')
        if nl and nl[0][0] == 'Alt':
            raise_fork = True
            x = nl[0]
            self.seq([n] + pl, x[2] + nl[1:], facts + (('N', x[1], True),), loops)
            self.seq([n] + pl, x[3] + nl[1:], facts + (('N', x[1], False),), loops)
            return None
        try:
            vs = set()
            self.sp.varsP(n.count, vs)
        except Unknown as u:
            raise Undecided('the count of a loop: %s' % u)
        if not nl or nl[0][0] in ('B', 'While'):
            if not self.loops_left(nl):
                test = ('P', ('cmp', '>', n.count, T.C(0)), True)
                d = self.sp.decide(test, self.env(facts))
                if d[0] in (True, 'both'):
                    raise Found('bytes', 'no loop for %s' % self.what(n), 'the compiled reader has no loop where %s (%s) reads a list, when %s' % (getattr(n, 'func', ''), self.where(n), self.sp.show(d[1])),
                                self.where(n))
                if d[0] in (False, 'void'):
                    return nl
            raise Undecided('a loop against %s' % (nl[0][0] if nl else 'the end'))
        x = nl[0]
        if x[0] != 'Loop' or x[2] is None:
            raise Undecided('a loop against a %s' % x[0])
        t1, t2 = ('P', ('cmp', '==', n.count, T.C(0)), True), ('N', ('cmp', 'eq', x[2], ('k', 0)), True)
        bad = None
        try:
            g = self.sp.assignments([t1, t2], self.env(facts))
            for asg in g():
                if max(0, self.sp.evP(n.count, asg)) != max(0, self.sp.evN(x[2], asg)):
                    bad = asg
                    break
        except Unknown as u:
            raise Undecided('the count of a loop: %s' % u)
        if bad is not None:
            if g.unknown:
                raise Undecided('the count of a loop')
            raise Found('bytes', 'count of %s' % self.what(n), 'the compiled reader repeats another number of times than %s (%s), when %s' % (getattr(n, 'func', ''), self.where(n), self.sp.show(bad)), self.where(n))
        self.decided += 1
        self.loopmap.setdefault(n.id, set()).add(x[1])
        self.counts[n.id] = n.count
        self.body(n.body, x[3], facts, loops + (n.id,))
        return nl[1:]

    def loops_left(self, l):
        return any(x[0] in ('Loop', 'Block') or (x[0] == 'Alt' and (self.loops_left(x[2]) or self.loops_left(x[3]))) for x in l)

    def ext(self, n, nl, facts, loops):
        nl = self.norm(nl, facts)
        if not nl or nl[0][0] == 'B':
            tags = sorted(n.cases)
            raise Found('blocks', 'no blocks for %s' % self.what(n), 'the compiled reader looks for no optional blocks where %s (%s) takes blocks %s' % (getattr(n, 'func', ''), self.where(n), tags), self.where(n))
        x = nl[0]
        if x[0] != 'While':
            raise Undecided('optional blocks against a %s' % x[0])
        body = x[3]
        if bytes_in(x[4]):
            raise Undecided("bytes taken to end optional blocks")
        b0 = self.firstbyte(x[2])
        if b0 is None:
            raise Undecided('the condition of optional blocks')
        ok = set()
        for t in range(256):
            self.sp_tmp = {('b', b0): t}
            try:
                if self.sp.evN(x[2], {('b', b0): t}):
                    ok.add(t)
            except Unknown:
                raise Undecided('the condition of optional blocks')
        if ok != {1}:
            raise Found('blocks', 'mark of blocks %s' % self.what(n), 'the compiled reader takes %s as the mark of an optional block where %s (%s) takes 1' % (sorted(ok)[:5], getattr(n, 'func', ''), self.where(n)), self.where(n))
        b1 = (b0[0], b0[1] + 1)
        f0 = facts + (('N', ('cmp', 'eq', ('bv', (b0,), False), ('k', 1)), True),)
        tags = {}
        for t in n.cases:
            tags[t] = n.cases[t]
        for t in range(256):
            ft = f0 + (('N', ('cmp', 'eq', ('bv', (b1,), False), ('k', t)), True),)
            ref = self.refuses(body, ft)
            if t in tags:
                if ref:
                    self.find('blocks', 'block %d of %s' % (t, self.what(n)), 'the compiled reader refuses block %d, which %s (%s) takes' % (t, getattr(n, 'func', ''), self.where(n)), self.where(n))
                    continue
                m = self.mark()
                try:
                    ids, rest = self.take(2, body, ft)
                    if [b for b, f in ids[0]] != [b0] or [b for b, f in ids[1]] != [b1]:
                        raise Undecided('the tag of optional blocks')
                    self.exts.append((n, t, x[1], ft))
                    self.body(tags[t], rest, ft, loops)
                    self.decided += 1
                except Found as f:
                    self.reset(m)
                    self.find(f.rule, 'block %d: %s' % (t, f.key), 'in block %d: %s' % (t, f.text), f.where)
                except (Short, Other, Fork):
                    self.reset(m)
                    self.find('blocks', 'block %d of %s' % (t, self.what(n)), 'the compiled reader does not take block %d as %s (%s) does' % (t, getattr(n, 'func', ''), self.where(n)), self.where(n))
            elif n.rejects and not ref:
                self.find('blocks', 'block %s of %s' % ('unknown', self.what(n)), 'the compiled reader takes block %d, which %s (%s) refuses' % (t, getattr(n, 'func', ''), self.where(n)), self.where(n))
            elif not n.rejects:
                raise Undecided('the Python reader passes over unknown blocks')
        return nl[1:]

    def firstbyte(self, c):
        out = set()
        self.sp_bytes(c, out)
        return out.pop() if len(out) == 1 else None

    def sp_bytes(self, c, out):
        if isinstance(c, tuple):
            if c and c[0] == 'bv':
                out.update(s for s in c[1] if isinstance(s, tuple))
                return
            for x in c:
                self.sp_bytes(x, out)

    def refuses(self, l, facts):
        for x in l:
            if x[0] == 'Assert':
                if self.sp.decide(('N', x[1], True), facts)[0] is False:
                    return True
            elif x[0] == 'Alt':
                d = self.sp.decide(('N', x[1], True), facts)[0]
                if d is True or d is False:
                    if self.refuses(x[2] if d else x[3], facts):
                        return True
                elif self.refuses(x[2], facts) and self.refuses(x[3], facts):
                    return True
        return False

    # ---- what each side insists on
    def finish(self):
        for (facts, r, where, text, loops) in self.preqs:
            # the native side must insist on it too
            test = r if r is not None else None
            known = self.known(facts, self.nreqs + self.limits, loops)
            if test is None:
                if not facts:
                    continue
                d = self.sp_path(facts, known)
                if d[0] == 'void':
                    self.decided += 1
                elif d[0] in ('yes',):
                    self.find('accepts', 'accepts %s' % self.keyof(facts[-1], where), 'the compiled reader accepts what the Python reader refuses (%s), when %s' % (where, self.sp.show(d[1])), where)
                else:
                    self.undecided.append('whether what raises at %s is refused' % where)
                continue
            d = self.sp.decide(test, known)
            if d[0] in (True, 'void'):
                self.decided += 1
            elif d[0] in (False, 'both'):
                self.find('accepts', 'accepts %s' % self.keyof(test, where), 'the compiled reader does not refuse what the Python reader refuses%s, when %s'
                          % (' (%s)' % where if where else '', self.sp.show(d[2])), where)
            else:
                self.undecided.append('whether the compiled reader insists on %s' % (T.show(test[1])[:80] if test[0] == 'P' else 'a tag'))
        for (facts, r, where, text, loops) in self.nreqs:
            known = self.known(facts, self.preqs, loops)
            d = self.sp.decide(r, known)
            if d[0] in (True, 'void'):
                self.decided += 1
            elif d[0] in (False, 'both'):
                self.find('refuses', 'refuses %s' % self.nkey(r[1]), 'the compiled reader (%s) refuses what the Python reader accepts, when %s' % (where, self.sp.show(d[2])), where)
            else:
                self.undecided.append('whether the Python reader insists on what %s does' % where)

    # ---- the checks that enough data is left
    def enough(self):
        for facts, (_, e, need, mult, bc), where, rest in self.needs:
            want = self.linear(need, mult)
            if want is None:
                self.undecided.append('how much data %s insists on' % where)
                continue
            want[None] = want.get(None, 0) - bc
            facts = self.known(facts, self.preqs + self.nreqs + self.limits)
            low, exact, path = self.least(rest, facts)
            ends = list(self.spans(rest, e)) or [(z, z) for a, z in self.spans(counted(self.e.st.out), e)]
            low[None] = low.get(None, 0) + (min(a for a, z in ends) if self.spans(rest, e) else max([z for a, z in ends] or [0]))
            if self.covers(low, want):
                self.decided += 1
                continue
            bad = None
            if exact and isinstance(low, dict):
                for t in want:
                    if t is not None and want[t] > low.get(t, 0) and not any(k is not None and k != t and self.related(k, t) for k in low):
                        bad = '%d bytes for every item where %d are enough' % (want[t], low.get(t, 0))
            if bad:
                self.find('refuses', 'left %s %s' % (where, self.nkey(need)), 'the compiled reader (%s) insists on %s, which the Python reader does not' % (where, bad), where)
            else:
                self.undecided.append('whether the data %s insists on is always there' % where)

    def related(self, a, b):
        x, y = set(), set()
        try:
            self.sp.varsN(a, x)
            self.sp.varsN(b, y)
        except Unknown:
            return True
        return bool(x & y)

    def linear(self, v, mult=1):
        while v[0] in ('st', 'stc'):
            v = v[2]
        if v[0] == 'k':
            return {None: int(v[1]) * mult}
        if v[0] == 'lin':
            out = {None: v[1] * mult}
            for a, c in v[2]:
                x = self.linear(a, c * mult)
                if x is None:
                    return None
                for k in x:
                    out[k] = out.get(k, 0) + x[k]
            return out
        if v[0] == 'op' and v[1] == '*' and v[3][0] == 'k':
            return self.linear(v[2], mult * int(v[3][1]))
        if v[0] == 'bv' or v[0] == 'op':
            return {v: mult}
        return None

    def covers(self, low, want):
        low = dict(low)
        for t, c in want.items():
            if t is None or c <= 0:
                continue
            have = low.get(t, 0)
            # what is read in units of k
            for q in list(low):
                if q is not None and q[0] == 'op' and q[1] == '/' and q[2] == t and q[3][0] == 'k' and int(q[3][1]) > 0 and have < c:
                    k = int(q[3][1])
                    n = min(low[q] // k, c - have)
                    if n > 0:
                        have += n
                        low[q] -= n * k
                        low[None] = low.get(None, 0) - n * (k - 1)
            if have < c:
                return False
        return low.get(None, 0) >= want.get(None, 0)

    def spans(self, l, e):
        out = []
        for x in l:
            if x[0] == 'B':
                if x[1] == e and x[3]:
                    out.append((x[2], x[2] + x[3]))
            else:
                for y in x:
                    if isinstance(y, list):
                        out += self.spans(y, e)
        return out

    def least(self, l, facts):
        """The bytes certain to be taken: (linear form, whether no more need be taken, facts)."""
        out, exact = {None: 0}, True

        def add(x, m=1):
            for k in x:
                out[k] = out.get(k, 0) + m * x[k]
        for x in l:
            h = x[0]
            if h == 'B':
                add({None: x[3]})
            elif h == 'Alt':
                d = self.sp.decide(('N', x[1], True), facts)[0]
                if d == 'void':
                    return out, False, facts
                if d in (True, False):
                    a, ex, facts = self.least(x[2] if d else x[3], facts)
                    add(a)
                    exact = exact and ex
                    continue
                a, ea, fa = self.least(x[2], facts + (('N', x[1], True),))
                b, eb, fb = self.least(x[3], facts + (('N', x[1], False),))
                ks = set(a) | set(b)
                low = {k: min(a.get(k, 0), b.get(k, 0)) for k in ks}
                add(low)
                pos = lambda q: all(low.get(k, 0) == q.get(k, 0) for k in ks)
                if pos(a) and pos(b) and ea and eb:
                    pass
                elif pos(a) and ea and d == 'both':
                    facts = fa
                elif pos(b) and eb and d == 'both':
                    facts = fb
                else:
                    exact = False
            elif h == 'Loop':
                if x[2] is None:
                    exact = False
                    continue
                c = self.linear(x[2])
                a, ea, fa = self.least(x[3], facts)
                if c is None:
                    exact = False
                    continue
                for k in set(a) - {None}:
                    # repeated in the loop: none of it, when it need not be there
                    try:
                        if a[k] < 0 or self.sp.decide(('N', ('cmp', 'le', k, ('k', 0)), True), fa)[0] != 'both':
                            exact = False
                    except Unknown:
                        exact = False
                exact = exact and ea
                add(c, a.get(None, 0))
            elif h == 'While':
                # optional blocks: there may be none
                if self.sp.decide(('N', x[2], True), facts)[0] not in ('both', False):
                    exact = False
            elif h == 'Block':
                exact = False
            elif h not in ('AtEnd', 'Append', 'Resize', 'Clear', 'Need', 'Assert', 'Set', 'Store'):
                exact = False
        return out, exact, facts

    def known(self, facts, reqs, loops=None):
        fs = set(facts)
        out = list(facts)
        seen = set()
        for f, r, w, t, l in reqs:
            rest = tuple(x for x in f if x not in fs)
            if loops is not None:
                # what is insisted on in a loop only holds when the loop is entered
                rest += tuple(('P', ('cmp', '>', self.counts[i], T.C(0)), True) for i in l if i not in loops and i in self.counts)
            x = r if not rest else ('I', rest, r)
            if x is not None and x not in seen:
                seen.add(x)
                out.append(x)
        return tuple(out)

    def sp_path(self, facts, known):
        """Is there an assignment on this path?"""
        last = facts[-1]
        d = self.sp.decide(last, known[:len(facts) - 1] + known[len(facts):])
        if d[0] is None:
            return (None,)
        if d[0] in (True, 'both'):
            return ('yes', d[1])
        if d[0] == 'maybe':
            return (None,)
        return ('void',)

    def keyof(self, f, where):
        out = set()
        try:
            self.sp.varsF(f, out)
        except Unknown:
            pass
        names = sorted('%s' % (v[1],) for v in out if v[0] in 'wsnc')
        return 'field %s' % '+'.join(names[:4]) if names else str(where)

    def nkey(self, c):
        out = set()
        try:
            self.sp.varsN(c, out)
        except Unknown:
            pass
        return '+'.join(sorted({'field %s' % v[1] if v[0] in 'wsnc' else 'byte' for v in out})) or 'always'

    def run(self):
        try:
            self.body(self.pe.out, counted(self.e.st.out), (), ())
            self.finish()
            self.enough()
        except Found as f:
            self.found.append(f)
        except (Undecided, Unknown) as u:
            self.undecided.append(str(u))
        except (Short, Other, Fork) as x:
            self.undecided.append('%s' % type(x).__name__)


def counted(l):
    """Bytes as (epoch, from, count)."""
    out = []
    for x in l:
        if x[0] == 'B':
            x = ('B', x[1], x[2], x[3] - x[2])
        else:
            x = tuple(counted(y) if isinstance(y, list) else y for y in x)
        out.append(x)
    return out


class Short(Exception):
    pass


class Other(Exception):
    def __init__(self, kind, node):
        Exception.__init__(self, kind)
        self.kind, self.node = kind, node


class Void(Exception):
    """No data gets here."""
