"""Shape interpretation extended with bit provenance.

An integer is a tuple of bits, each 0, 1 or "bit i of source s"; byte strings are lists
of such integers; text is a list of literal characters and hexadecimal digits of four
bits.  Packing, slicing, shifting and formatting move bits around, so the domain follows
exactly where every bit of the input ends up.  Tests on bits split the run and the
outcome is remembered as equalities (or one excluded combination)."""
import ast
import re
from .shapes import (Shapes, V, K, Atom, Unknown, Inst, ClassV, Builtin, Bound, Ext, GenV, Stop, PyRaise, NONE, Partial, FuncV)

HEXD = '0123456789abcdefABCDEF'


class Infeasible(Stop):
    pass


class Bits(V):
    def __init__(self, bits):
        b = list(bits)
        while b and b[-1] == 0:
            b.pop()
        self.bits = tuple(b)

    def __repr__(self):
        return 'bits%r' % (self.bits,)


class Poly(object):
    """a bit computed from others: the canonical polynomial over GF(2), a set of products of bits"""
    __slots__ = ('terms',)

    def __init__(self, terms):
        self.terms = frozenset(terms)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.terms == o.terms

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.terms)

    def __repr__(self):
        return 'a combination of %d bits' % len({v for t in self.terms for v in t})


ONE = frozenset([frozenset()])


def terms(b):
    if b == 0:
        return frozenset()
    if b == 1:
        return ONE
    if isinstance(b, Poly):
        return b.terms
    return frozenset([frozenset([b])])


def unterms(t):
    if not t:
        return 0
    if t == ONE:
        return 1
    if len(t) == 1:
        (m,) = t
        if len(m) == 1:
            (v,) = m
            return v
    if len(t) > 40 or any(vague(v) for m in t for v in m):
        VAGUE[0] += 1
        return ('?', VAGUE[0])
    return Poly(t)


VAGUE = [0]


def vague(b):
    """a bit that is not followed"""
    return b not in (0, 1) and not isinstance(b, Poly) and b[0] == '?'


def bxor(a, b):
    return unterms(terms(a) ^ terms(b))


def band(a, b):
    out = set()
    for x in terms(a):
        for y in terms(b):
            out ^= {x | y}
    return unterms(frozenset(out))


def bor(a, b):
    return bxor(bxor(a, b), band(a, b))


class Hex(object):
    """one hexadecimal digit of a text"""
    __slots__ = ('bits', 'upper')

    def __init__(self, bits, upper=False):
        self.bits, self.upper = tuple(bits), upper


class Text(V):
    def __init__(self, chars):
        self.chars = list(chars)

    def __repr__(self):
        return 'text(%s)' % ''.join(c if isinstance(c, str) else '?' for c in self.chars)


class Uuid(V):
    """bytes in network order"""
    def __init__(self, be):
        self.be = list(be)


class StructV(V):
    def __init__(self, fmt):
        self.fmt = fmt


class HashV(V):
    def __init__(self, payload):
        self.payload = payload


def source(name, n):
    return Bits([(name, i) for i in range(n)])


def source_bytes(name, n):
    return [Bits([(name, 8 * i + j) for j in range(8)]) for i in range(n)]


def blist(kind, items):
    r = Inst(None, kind)
    r.lst = list(items)
    return r


def parse_struct(fmt):
    """[(code, width bytes, count)] and byte order, None when not in reach"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    order = ''
    if fmt[:1] in '<>!=@':
        order, fmt = fmt[:1], fmt[1:]
    out = []
    for cnt, code in re.findall(r'\s*(\d*)([a-zA-Z?])', fmt):
        w = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8, 's': 1, 'x': 1, 'b': 1, 'h': 2, 'i': 4, 'l': 4, 'q': 8}.get(code)
        if w is None:
            return None
        if w > 1 and order not in ('<', '>', '!'):
            return None
        if code in 'bhilq':
            return None
        out.append((code, w, int(cnt) if cnt else 1))
    return out, ('little' if order == '<' else 'big')


class BitShapes(Shapes):
    def __init__(self, prog):
        Shapes.__init__(self, prog)
        self.same_as = {}
        self.negs = []
        self.fresh = 0

    def bruns(self, action, limit=400):
        def go():
            self.same_as = {}
            self.negs = []
            self.fresh = 0
            return action()
        return (r for r in self.runs(go, limit) if not isinstance(r[1], Infeasible))

    # -- facts about bits ------------------------------------------------------
    def nb(self, b):
        if isinstance(b, Poly):
            r = 0
            for t in b.terms:
                p = 1
                for v in t:
                    p = band(p, self.nb(v))
                r = bxor(r, p)
            return r
        while b not in (0, 1) and b in self.same_as:
            b = self.same_as[b]
        return b

    def nbits(self, bits):
        return Bits([self.nb(b) for b in bits]).bits

    def unify(self, a, b):
        a, b = self.nb(a), self.nb(b)
        if a == b:
            return
        if a in (0, 1) and b in (0, 1):
            raise Infeasible('contradiction')
        if a in (0, 1):
            a, b = b, a
        self.same_as[a] = b

    def cube(self, pairs):
        out = set()
        for a, b in pairs:
            a, b = self.nb(a), self.nb(b)
            if a == b:
                continue
            if a in (0, 1) and b in (0, 1):
                return None
            if isinstance(a, Poly) or isinstance(b, Poly) or vague(a) or vague(b):
                raise Stop('test on computed bits')
            if a in (0, 1) or (b not in (0, 1) and repr(b) < repr(a)):
                a, b = b, a
            out.add((a, b))
        # one bit asked to be both
        d = {}
        for a, b in out:
            if b in (0, 1) and d.setdefault(a, b) != b:
                return None
        return frozenset(out)

    def settle(self):
        while True:
            again = False
            keep = []
            for n in self.negs:
                c = self.cube(n)
                if c is None:
                    continue
                if not c:
                    raise Infeasible('excluded case')
                if len(c) == 1:
                    (a, b), = c
                    if b in (0, 1):
                        self.unify(a, 1 - b)
                        again = True
                        continue
                keep.append(c)
            self.negs = keep
            if not again:
                return

    def all_equal(self, pairs):
        c = self.cube(pairs)
        if c is None:
            return False
        if not c:
            return True
        for n in self.negs:
            m = self.cube(n)
            if m is not None and m <= c:
                return False
        r = self.choose(('cube', c))
        if r:
            for a, b in c:
                self.unify(a, b)
        else:
            self.negs.append(c)
        self.settle()
        return r

    def witness(self, srcs):
        """a value for the bits of the sources that satisfies the facts, or None"""
        vars_ = {}
        for b in srcs:
            x = self.nb(b)
            if x not in (0, 1):
                vars_.setdefault(x, 0)
        negs = [c for c in (self.cube(n) for n in self.negs) if c is not None]

        def sat(c, val):
            return all(val.get(a, 0) == (b if b in (0, 1) else val.get(b, 0)) for a, b in c)
        for _ in range(64):
            bad = [c for c in negs if sat(c, vars_)]
            if not bad:
                break
            a, b = sorted(bad[0], key=repr)[0]
            vars_[a] = 1 - vars_.get(a, 0)
        else:
            return None
        out = []
        for b in srcs:
            x = self.nb(b)
            out.append(x if x in (0, 1) else vars_.get(x, 0))
        return out

    # -- conversions -------------------------------------------------------------
    def bits(self, v):
        if isinstance(v, Bits):
            return self.nbits(v.bits)
        if isinstance(v, K) and isinstance(v.v, int) and v.v >= 0:
            n, out = v.v, []
            while n:
                out.append(n & 1)
                n >>= 1
            return tuple(out)
        return None

    def num(self, bits):
        b = self.nbits(bits)
        if all(x in (0, 1) for x in b):
            return K(sum(x << i for i, x in enumerate(b)))
        return Bits(b)

    def byte(self, v):
        b = self.bits(v)
        if b is None:
            raise Stop('not a byte: %r' % (v,))
        if len(b) > 8:
            if any(x == 1 for x in b[8:]):
                raise PyRaise('ValueError', 'byte must be in range(0, 256)')
            raise Stop('value may not fit a byte')
        return b + (0,) * (8 - len(b))

    def bytelist(self, v):
        """list of 8-bit tuples of a bytes-like value"""
        if isinstance(v, K) and isinstance(v.v, (bytes, bytearray, tuple, list)):
            return [self.byte(K(x)) for x in v.v]
        if isinstance(v, (Inst, GenV)) and (isinstance(v, GenV) or v.lst is not None):
            return [self.byte(x) for x in self.iterate(v)]
        if isinstance(v, Text):
            raise Stop('text as bytes')
        raise Stop('not bytes: %r' % (v,))

    def frombytes(self, bl, order):
        bl = list(bl) if order == 'little' else list(reversed(list(bl)))
        return self.num([x for b in bl for x in b])

    def tobytes(self, v, n, order):
        b = self.bits(v)
        if b is None:
            raise Stop('not an int')
        if len(b) > 8 * n:
            if any(x == 1 for x in b[8 * n:]):
                raise PyRaise('OverflowError')
            raise Stop('value may not fit')
        b = b + (0,) * (8 * n - len(b))
        out = [self.num(b[8 * i:8 * i + 8]) for i in range(n)]
        if order == 'big':
            out.reverse()
        return out

    def text(self, v):
        if isinstance(v, Text):
            return v.chars
        if isinstance(v, K) and isinstance(v.v, str):
            return list(v.v)
        return None

    def mktext(self, chars):
        out = []
        for c in chars:
            if isinstance(c, Hex):
                b = [self.nb(x) for x in c.bits]
                if all(x in (0, 1) for x in b):
                    d = '%x' % sum(x << i for i, x in enumerate(b))
                    c = d.upper() if c.upper else d
                else:
                    c = Hex(b, c.upper)
            out.append(c)
        if all(isinstance(c, str) for c in out):
            return K(''.join(out))
        return Text(out)

    def hexdigits(self, bits, width, upper=False):
        b = self.nbits(bits)
        n = max((len(b) + 3) // 4, 1)
        b = b + (0,) * (4 * n - len(b))
        while n > max(width, 1) and self.all_equal([(x, 0) for x in b[4 * n - 4:4 * n]]):
            n -= 1
        n = max(n, width)
        b = self.nbits(b[:4 * n])
        b = b + (0,) * (4 * n - len(b))
        return [Hex(b[4 * i:4 * i + 4], upper) for i in reversed(range(n))]

    # -- formatting -------------------------------------------------------------------
    def fmt(self, v, spec, conv):
        """chars of one formatted value; spec like '02', conv like 'x'"""
        t = self.text(v)
        if conv in ('s', '', 'r'):
            if t is not None and conv != 'r' and not spec:
                return t
            if isinstance(v, K) and not spec:
                return list(str(v.v) if conv != 'r' else repr(v.v))
            if isinstance(v, Inst) and v.cls is not None:
                return self.text(self.builtin('str', [v], {}, None, None))
            return None
        if conv in ('x', 'X'):
            b = self.bits(v)
            if b is None:
                if isinstance(v, (K, Text)):
                    raise PyRaise('TypeError', 'format')
                return None
            if all(x in (0, 1) for x in b):
                return list(format(sum(x << i for i, x in enumerate(b)), spec + conv))
            if not re.match(r'^(0\d+)?$', spec):
                return None
            return self.hexdigits(b, int(spec or 0), conv == 'X')
        if conv == 'd':
            if isinstance(v, K):
                return list(format(v.v, spec + 'd'))
        return None

    def percent(self, fmt, arg):
        if isinstance(arg, Inst) and arg.kind == 'tuple':
            args = list(arg.lst)
        elif isinstance(arg, K) and isinstance(arg.v, tuple):
            args = [K(x) for x in arg.v]
        else:
            args = [arg]
        out, i = [], 0
        for m in re.finditer(r'%(%|([0-9]*)([a-zA-Z]))|[^%]+', fmt):
            s = m.group(0)
            if s[0] != '%':
                out.extend(s)
            elif s == '%%':
                out.append('%')
            else:
                if i >= len(args):
                    raise PyRaise('TypeError', 'not enough arguments for format string')
                c = self.fmt(args[i], m.group(2), m.group(3))
                i += 1
                if c is None:
                    return Atom('str', 'text')
                out.extend(c)
        if i < len(args):
            raise PyRaise('TypeError', 'not all arguments converted')
        return self.mktext(out)

    def braces(self, fmt, args, kw):
        out, auto = [], 0
        for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(?:!([rs]))?(?::([^{}]*))?\}|[^{}]+', fmt):
            s = m.group(0)
            if s in ('{{', '}}'):
                out.append(s[0])
                continue
            if not s.startswith('{'):
                out.extend(s)
                continue
            f = m.group(1)
            if f == '':
                v, auto = (args[auto] if auto < len(args) else None), auto + 1
            elif f.isdigit():
                v = args[int(f)] if int(f) < len(args) else None
            elif f.isidentifier():
                v = kw.get(f)
            else:
                return Atom('str', 'text')
            if v is None:
                raise PyRaise('IndexError', 'format argument')
            c = self.spec(v, m.group(3) or '', m.group(2) or '')
            if c is None:
                return Atom('str', 'text')
            out.extend(c)
        return self.mktext(out)

    def spec(self, v, spec, conv=''):
        if spec and spec[-1] in 'xXds':
            return self.fmt(v, spec[:-1], spec[-1])
        if not spec:
            return self.fmt(v, '', conv or 's')
        return None

    def x_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, env)
                sp = ''
                if v.format_spec is not None:
                    t = self.eval(v.format_spec, env)
                    if not (isinstance(t, K) and isinstance(t.v, str)):
                        return Atom('str', 'text')
                    sp = t.v
                c = self.spec(x, sp, 'r' if v.conversion == 114 else '')
                if c is None:
                    return Atom('str', 'text')
                out.extend(c)
            else:
                out.extend(v.value)
        return self.mktext(out)

    # -- the interpreter's hooks ----------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Bits):
            b = self.nbits(v.bits)
            if any(x == 1 for x in b):
                return True
            return not self.all_equal([(x, 0) for x in b])
        if isinstance(v, Text):
            return bool(v.chars)
        if isinstance(v, (Uuid, StructV, HashV)):
            return True
        return Shapes.truth(self, v)

    def key(self, k):
        if isinstance(k, Bits):
            return ('bits', self.nbits(k.bits))
        return Shapes.key(self, k)

    def tag(self, v):
        if isinstance(v, Bits):
            return ('bits', self.nbits(v.bits))
        return Shapes.tag(self, v)

    def getattr(self, b, name, where=''):
        if isinstance(b, Uuid):
            if name == 'bytes':
                return blist('bytes', b.be)
            if name == 'bytes_le':
                e = b.be
                return blist('bytes', e[3::-1] + e[5:3:-1] + e[7:5:-1] + e[8:])
            if name in ('int', 'time_low', 'time_mid', 'time_hi_version', 'node'):
                lo, hi = {'int': (0, 16), 'time_low': (0, 4), 'time_mid': (4, 6), 'time_hi_version': (6, 8), 'node': (10, 16)}[name]
                return self.frombytes([self.byte(x) for x in b.be[lo:hi]], 'big')
            if name in ('clock_seq_hi_variant', 'clock_seq_low'):
                return b.be[8 if name == 'clock_seq_hi_variant' else 9]
            if name == 'hex':
                return self.hexof([self.byte(x) for x in b.be])
            return Unknown('uuid.%s' % name)
        if isinstance(b, StructV):
            if name == 'size':
                p = parse_struct(b.fmt)
                return K(sum(w * c for _, w, c in p[0])) if p else Unknown('struct size')
            return Bound(b, name)
        if isinstance(b, (Bits, Text, HashV)):
            return Bound(b, name)
        if isinstance(b, Inst) and b.cls is None and b.kind in ('bytes', 'bytearray'):
            if not hasattr(bytearray if b.kind == 'bytearray' else bytes, name):
                raise PyRaise('AttributeError', name)
            return Bound(b, name)
        return Shapes.getattr(self, b, name, where)

    def hexof(self, bl):
        return self.mktext([h for b in bl for h in (Hex(b[4:8]), Hex(b[0:4]))])

    def unhex(self, v, ws=False):
        t = self.text(v)
        if t is None:
            raise Stop('not text')
        t = [c for c in t if not (ws and c == ' ')]
        if len(t) % 2:
            raise PyRaise('ValueError', 'odd number of digits')
        n = [self.digit(c) for c in t]
        return [self.num(n[i + 1] + n[i]) for i in range(0, len(n), 2)]

    def digit(self, c):
        if isinstance(c, Hex):
            return tuple(c.bits)
        if c not in HEXD:
            raise PyRaise('ValueError', 'invalid digit %r' % c)
        d = int(c, 16)
        return tuple(d >> i & 1 for i in range(4))

    def getitem(self, b, k):
        if isinstance(b, Text) and isinstance(k, K):
            try:
                r = b.chars[k.v]
            except IndexError:
                raise PyRaise('IndexError')
            return self.mktext(r if isinstance(r, list) else [r])
        if isinstance(b, (Bits, Uuid)):
            raise PyRaise('TypeError', 'not subscriptable')
        return Shapes.getitem(self, b, k)

    def raw_getitem(self, b, k):
        if b.kind in ('bytes', 'bytearray') and b.cls is None and isinstance(k, K) and isinstance(k.v, slice):
            return blist(b.kind, b.lst[k.v])
        return Shapes.raw_getitem(self, b, k)

    def raw_setitem(self, b, k, v):
        if b.kind == 'bytes':
            raise PyRaise('TypeError', 'bytes are immutable')
        if b.kind == 'bytearray' and b.cls is None:
            if isinstance(k, K) and isinstance(k.v, slice):
                v = blist('list', [self.num(x) for x in self.bytelist(v)])
                if k.v.step not in (None, 1) and len(b.lst[k.v]) != len(v.lst):
                    raise PyRaise('ValueError')
            else:
                v = self.num(self.byte(v))
        Shapes.raw_setitem(self, b, k, v)

    def iterate(self, v, lazy=False):
        if isinstance(v, Text):
            return [self.mktext([c]) for c in v.chars]
        if isinstance(v, Bits):
            raise PyRaise('TypeError', 'not iterable')
        return Shapes.iterate(self, v, lazy)

    def isinst(self, v, t):
        if isinstance(v, (Bits, Text, Uuid, HashV)):
            if isinstance(t, (Inst, K)):
                return Shapes.isinst(self, v, t)
            if isinstance(t, ClassV):
                return False
            n = t.name.split('.')[-1] if isinstance(t, (Builtin, Ext)) else None
            return n == 'object' or n in {Bits: ('int', 'long', 'Integral', 'Number'), HashV: ('int',), Text: ('str', 'unicode', 'basestring'), Uuid: ('UUID',)}[type(v)]
        return Shapes.isinst(self, v, t)

    def bytes_like(self, v):
        return isinstance(v, Inst) and v.cls is None and v.kind in ('bytes', 'bytearray') or isinstance(v, K) and isinstance(v.v, (bytes, bytearray))

    def equal(self, a, b):
        if self.bytes_like(a) and self.bytes_like(b):
            x, y = self.bytelist(a), self.bytelist(b)
            if len(x) != len(y):
                return False
            return self.all_equal([p for u, v in zip(x, y) for p in zip(u, v)])
        if self.bytes_like(a) or self.bytes_like(b):
            if isinstance(a, (Inst, K)) and isinstance(b, (Inst, K)):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Inst) and x.cls is not None:
                        return Shapes.equal(self, a, b)
                return False
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = self.bits(a), self.bits(b)
            if x is not None and y is not None:
                n = max(len(x), len(y))
                return self.all_equal(list(zip(x + (0,) * (n - len(x)), y + (0,) * (n - len(y)))))
            if isinstance(a, K) or isinstance(b, K):
                return False
        if isinstance(a, Text) or isinstance(b, Text):
            x, y = self.text(a), self.text(b)
            if x is None or y is None:
                return False
            if len(x) != len(y):
                return False
            pairs = []
            for c, d in zip(x, y):
                if isinstance(c, str) and isinstance(d, str):
                    if c != d:
                        return False
                    continue
                for p, q in ((c, d), (d, c)):
                    if isinstance(p, str) and p not in HEXD:
                        return False
                    if isinstance(p, str) and isinstance(q, Hex) and p.isalpha() and p.isupper() != q.upper:
                        return False
                if isinstance(c, Hex) and isinstance(d, Hex) and c.upper != d.upper:
                    raise Stop('comparison of texts in different case')
                pairs.extend(zip(self.digit(c), self.digit(d)))
            return self.all_equal(pairs)
        if isinstance(a, Uuid) and isinstance(b, Uuid):
            return self.all_equal([p for u, v in zip(a.be, b.be) for p in zip(self.byte(u), self.byte(v))])
        if isinstance(a, HashV) or isinstance(b, HashV):
            raise Stop('comparison of hashes')
        return Shapes.equal(self, a, b)

    def compare(self, op, a, b):
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            x, y = self.ordinal(a), self.ordinal(b)
            if x is not None and y is not None:
                if op in ('Gt', 'LtE'):
                    x, y = y, x
                return self.less(x, y) == (op in ('Lt', 'Gt'))
            if isinstance(a, Inst) and a.cls is not None:
                m = a.cls.find_method({'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op])
                from .load import Func
                if isinstance(m, Func):
                    return self.truth(self.call_func(m, [a, b], {}))
        return Shapes.compare(self, op, a, b)

    def ordinal(self, v):
        b = self.bits(v)
        if b is not None:
            return ('n',) + b
        if isinstance(v, Uuid):
            return ('u',) + self.bits(self.frombytes([self.byte(x) for x in v.be], 'big'))
        if self.bytes_like(v):
            bl = self.bytelist(v)
            return ('s%d' % len(bl),) + tuple(x for y in reversed(bl) for x in y)
        return None

    def less(self, x, y):
        if x[0] != y[0]:
            raise Stop('order of different kinds')
        x, y = x[1:], y[1:]
        n = max(len(x), len(y))
        x, y = x + (0,) * (n - len(x)), y + (0,) * (n - len(y))
        # upper and lower bound decide comparisons with constants
        lo = lambda t: sum((1 << i) for i, c in enumerate(t) if c == 1)
        hi = lambda t: sum((1 << i) for i, c in enumerate(t) if c != 0)
        if hi(x) < lo(y):
            return True
        if lo(x) >= hi(y):
            return False
        if x == y:
            return False
        if ('lt', y, x) in self.memo and self.memo[('lt', y, x)]:
            return False
        return self.choose(('lt', x, y))

    def x_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return K(not self.truth(v))
        if isinstance(v, Bits):
            return v if isinstance(n.op, ast.UAdd) else Unknown('negation')
        if isinstance(v, K):
            try:
                return K({ast.USub: lambda x: -x, ast.Invert: lambda x: ~x, ast.UAdd: lambda x: +x}[type(n.op)](v.v))
            except TypeError:
                raise PyRaise('TypeError')
        return Unknown('negation')

    def binop(self, op, a, b):
        if op == 'Mod' and isinstance(a, K) and isinstance(a.v, str):
            return self.percent(a.v, b)
        if op == 'Add':
            x, y = self.text(a), self.text(b)
            if x is not None and y is not None:
                return self.mktext(list(x) + list(y))
            if self.bytes_like(a) and self.bytes_like(b):
                kind = a.kind if isinstance(a, Inst) else 'bytes'
                return blist(kind, [self.num(z) for z in self.bytelist(a) + self.bytelist(b)])
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = self.bits(a), self.bits(b)
            if x is None and isinstance(a, K) and isinstance(a.v, int) or y is None and isinstance(b, K) and isinstance(b.v, int):
                return Unknown('negative operand')
            if x is None or y is None:
                if isinstance(a, (K, Text)) or isinstance(b, (K, Text)):
                    raise PyRaise('TypeError', 'operand')
                return Unknown('arithmetic')
            kb = b.v if isinstance(b, K) else None
            if op in ('LShift', 'RShift') and kb is not None:
                return self.num((0,) * kb + x) if op == 'LShift' else self.num(x[kb:])
            n = max(len(x), len(y))
            u, w = x + (0,) * (n - len(x)), y + (0,) * (n - len(y))
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Add'):
                out, carry = [], 0
                for p, q in zip(u, w):
                    if op == 'Add':
                        out.append(bxor(bxor(p, q), carry))
                        carry = bxor(band(p, q), band(carry, bxor(p, q))) if carry != 0 else band(p, q)
                    else:
                        out.append({'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[op](p, q))
                return self.num(out + [carry])
            if kb is not None and kb > 0 and kb & (kb - 1) == 0:
                s = kb.bit_length() - 1
                if op == 'FloorDiv':
                    return self.num(x[s:])
                if op == 'Mod':
                    return self.num(x[:s])
                if op == 'Mult':
                    return self.num((0,) * s + x)
            return Unknown('arithmetic')
        if op == 'Mult' and isinstance(a, Inst) and a.kind in ('bytes', 'bytearray') and isinstance(b, K) and isinstance(b.v, int):
            return blist(a.kind, list(a.lst) * min(max(b.v, 0), 256))
        return Shapes.binop(self, op, a, b)

    def builtin(self, name, args, kw, node, env):
        a = args
        if name in ('bytes', 'bytearray'):
            if not a:
                return blist(name, [])
            v = a[0]
            if isinstance(v, K) and isinstance(v.v, int):
                if v.v < 0 or v.v > 4096:
                    raise PyRaise('ValueError')
                return blist(name, [K(0)] * v.v)
            if isinstance(v, K) and isinstance(v.v, str):
                return blist(name, [K(x) for x in v.v.encode('latin-1')])
            if isinstance(v, Inst) and v.cls is not None:
                m = v.cls.find_method('__bytes__')
                from .load import Func
                if isinstance(m, Func):
                    return self.call_func(m, [v], {})
            return blist(name, [self.num(x) for x in self.bytelist(v)])
        if name == 'str' and a:
            if isinstance(a[0], Text):
                return a[0]
            if isinstance(a[0], (Bits, Inst)) and not (isinstance(a[0], Inst) and a[0].cls is not None):
                return Atom('str', 'text')
        if name == 'int' and a:
            t = self.text(a[0])
            if t is not None:
                base = a[1].v if len(a) > 1 and isinstance(a[1], K) else kw['base'].v if isinstance(kw.get('base'), K) else 10
                if all(isinstance(c, str) for c in t):
                    try:
                        return K(int(''.join(t), base))
                    except ValueError:
                        raise PyRaise('ValueError')
                if base != 16:
                    raise Stop('digits in another base')
                s = [c for c in t]
                if s[:2] == ['0', 'x']:
                    s = s[2:]
                ds = [self.digit(c) for c in s]
                return self.num([x for d in reversed(ds) for x in d])
            if isinstance(a[0], (Bits, HashV)):
                return a[0]
        if name == 'len' and isinstance(a[0], Text):
            return K(len(a[0].chars))
        if name == 'hash':
            return HashV(a[0])
        if name == 'format' and len(a) == 2 and isinstance(a[1], K):
            c = self.spec(a[0], a[1].v)
            return self.mktext(c) if c is not None else Atom('str', 'text')
        if name == 'sum' and a:
            t = a[1] if len(a) > 1 else K(0)
            for x in self.iterate(a[0]):
                t = self.binop('Add', t, x)
            return t
        if name == 'memoryview':
            return Unknown(name)
        if name == 'divmod' and len(a) == 2:
            return self.mk('tuple', [self.binop('FloorDiv', a[0], a[1]), self.binop('Mod', a[0], a[1])])
        if name in ('repr',) and isinstance(a[0], (Text, Bits)):
            return Atom('str', 'text')
        return Shapes.builtin(self, name, args, kw, node, env)

    def arg(self, args, kw, i, name, default=None):
        if len(args) > i:
            return args[i]
        return kw.get(name, default)

    def bound(self, base, name, args, kw):
        if isinstance(base, Builtin):
            if base.name in ('bytes', 'bytearray') and name == 'fromhex':
                return blist(base.name, self.unhex(args[0], True))
            if base.name == 'int' and name == 'from_bytes':
                o = self.arg(args, kw, 1, 'byteorder', K('big'))
                if not isinstance(o, K) or 'signed' in kw and self.truth(kw['signed']):
                    return Unknown('from_bytes')
                return self.frombytes(self.bytelist(args[0]), o.v)
            if base.name == 'str' and args and self.text(args[0]) is not None:
                return self.bound(args[0], name, args[1:], kw)
        if name == '__hash__' and (isinstance(base, tuple) or isinstance(base, Builtin) and base.name == 'object' and args):
            return HashV(K(('id', 0)))
        if isinstance(base, StructV):
            return self.struct(name, base.fmt, args, kw)
        t = self.text(base)
        if t is not None:
            r = self.text_method(base, t, name, args, kw)
            if r is not None:
                return r
        if isinstance(base, K) and isinstance(base.v, int) and name == 'to_bytes' and all(isinstance(x, K) for x in args):
            base = Bits(self.bits(base) or ())
        if isinstance(base, Bits):
            if name == 'to_bytes':
                n, o = self.arg(args, kw, 0, 'length'), self.arg(args, kw, 1, 'byteorder', K('big'))
                if isinstance(n, K) and isinstance(o, K):
                    return blist('bytes', self.tobytes(base, n.v, o.v))
            if name in ('__index__', '__int__'):
                return base
            return Unknown('int.%s' % name)
        if isinstance(base, Inst) and base.cls is None and base.kind in ('bytes', 'bytearray'):
            if name == 'hex' and not args:
                return self.hexof(self.bytelist(base))
            if name in ('copy', '__copy__'):
                return blist(base.kind, base.lst)
            if name == 'startswith' and self.bytes_like(args[0]):
                n = len(self.bytelist(args[0]))
                return K(self.equal(blist('bytes', base.lst[:n]), args[0]))
            if name == 'endswith' and self.bytes_like(args[0]):
                n = len(self.bytelist(args[0]))
                return K(self.equal(blist('bytes', base.lst[len(base.lst) - n:]), args[0]))
            if name == 'join':
                return Unknown('join')
            if name in ('__eq__', '__ne__'):
                return K(self.equal(base, args[0]) == (name == '__eq__'))
            if name in ('__lt__', '__le__', '__gt__', '__ge__'):
                return K(self.compare({'__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}[name], base, args[0]))
            if name == '__hash__':
                return HashV(base)
            if name in ('append', 'extend', 'insert', 'clear', 'reverse', 'pop', '__len__', '__iter__', '__setitem__', '__getitem__') and \
                    (base.kind == 'bytearray' or name.startswith('__')):
                return self.list_method(base, name, args, kw, False)
            return Unknown('bytes.%s' % name)
        if isinstance(base, K) and isinstance(base.v, bytes) and name == 'join':
            out = []
            for i, x in enumerate(self.iterate(args[0])):
                if i:
                    out.extend(K(c) for c in base.v)
                out.extend(self.num(y) for y in self.bytelist(x))
            return blist('bytes', out)
        if isinstance(base, K) and isinstance(base.v, bytes) and any(isinstance(x, Inst) for x in args):
            return self.bound(blist('bytes', [K(x) for x in base.v]), name, args, kw)
        return Shapes.bound(self, base, name, args, kw)

    def text_method(self, base, t, name, args, kw):
        sym = isinstance(base, Text)
        if name == 'format':
            if isinstance(base, K):
                return self.braces(base.v, args, kw)
            return None
        if name == 'join':
            out = []
            for i, x in enumerate(self.iterate(args[0])):
                y = self.text(x)
                if y is None:
                    return Atom('str', 'text')
                if i:
                    out.extend(t)
                out.extend(y)
            return self.mktext(out)
        if not sym:
            return None
        if name in ('lower', 'upper', 'casefold'):
            up = name == 'upper'
            return self.mktext([Hex(c.bits, up) if isinstance(c, Hex) else getattr(c, name)() for c in t])
        if name in ('replace', 'startswith', 'endswith', 'split', 'find', 'index', 'count', 'partition', 'rpartition', 'removeprefix') and args and isinstance(args[0], K) and isinstance(args[0].v, str):
            pat = args[0].v
            if name in ('startswith', 'removeprefix'):
                r = self.match(t, 0, pat)
                return K(r) if name == 'startswith' else self.mktext(t[len(pat):] if r else t)
            if name == 'endswith':
                return K(self.match(t, len(t) - len(pat), pat))
            if not pat:
                raise Stop('empty pattern')
            pos, i = [], 0
            while i + len(pat) <= len(t):
                if self.match(t, i, pat):
                    pos.append(i)
                    i += len(pat)
                else:
                    i += 1
            if name == 'count':
                return K(len(pos))
            if name in ('find', 'index'):
                if not pos and name == 'index':
                    raise PyRaise('ValueError')
                return K(pos[0] if pos else -1)
            if name in ('partition', 'rpartition'):
                if not pos:
                    e = [self.mktext(t), K(''), K('')]
                    return self.mk('tuple', e if name == 'partition' else e[::-1])
                p = pos[0 if name == 'partition' else -1]
                return self.mk('tuple', [self.mktext(t[:p]), K(pat), self.mktext(t[p + len(pat):])])
            if len(args) > 1 and isinstance(args[-1], K) and isinstance(args[-1].v, int):
                pos = pos[:args[-1].v]
            parts, last = [], 0
            for p in pos:
                parts.append(t[last:p])
                last = p + len(pat)
            parts.append(t[last:])
            if name == 'split':
                return self.mk('list', [self.mktext(p) for p in parts])
            rep = self.text(args[1]) if len(args) > 1 else None
            if rep is None:
                raise Stop('replacement')
            out = parts[0][:]
            for p in parts[1:]:
                out.extend(rep)
                out.extend(p)
            return self.mktext(out)
        if name in ('strip', 'lstrip', 'rstrip'):
            cs = args[0].v if args and isinstance(args[0], K) else ' \t\n\r'
            t = list(t)
            if any(c in HEXD for c in cs):
                raise Stop('strip of digits')
            if name != 'rstrip':
                while t and isinstance(t[0], str) and t[0] in cs:
                    t.pop(0)
            if name != 'lstrip':
                while t and isinstance(t[-1], str) and t[-1] in cs:
                    t.pop()
            return self.mktext(t)
        if name in ('encode', 'decode'):
            return base
        if name in ('__str__', '__repr__'):
            return base if name == '__str__' else Atom('str', 'text')
        return Unknown('str.%s' % name)

    def match(self, t, i, pat):
        if i < 0 or i + len(pat) > len(t):
            return False
        pairs = []
        for c, p in zip(t[i:i + len(pat)], pat):
            if isinstance(c, str):
                if c != p:
                    return False
            elif p not in HEXD or p.isalpha() and p.isupper() != c.upper:
                return False
            else:
                pairs.extend(zip(c.bits, self.digit(p)))
        return self.all_equal(pairs) if pairs else True

    def struct(self, name, fmt, args, kw):
        p = parse_struct(fmt)
        if p is None:
            raise Stop('struct format %r' % (fmt,))
        items, order = p
        size = sum(w * c for _, w, c in items)
        if name in ('unpack', 'unpack_from'):
            bl = self.bytelist(args[0])
            off = self.arg(args, kw, 1, 'offset', K(0)) if name == 'unpack_from' else K(0)
            if not isinstance(off, K):
                raise Stop('offset')
            o = off.v
            if name == 'unpack' and len(bl) != size or o + size > len(bl):
                raise PyRaise('struct.error')
            out = []
            for code, w, c in items:
                if code == 'x':
                    o += c
                elif code == 's':
                    out.append(blist('bytes', [self.num(x) for x in bl[o:o + c]]))
                    o += c
                else:
                    for _ in range(c):
                        out.append(self.frombytes(bl[o:o + w], order))
                        o += w
            return self.mk('tuple', out)
        if name in ('pack', 'pack_into'):
            vals = list(args)
            buf = off = None
            if name == 'pack_into':
                buf, off = vals[0], vals[1]
                vals = vals[2:]
                if not isinstance(off, K):
                    raise Stop('offset')
            out = []
            for code, w, c in items:
                if code == 'x':
                    out.extend([K(0)] * c)
                elif code == 's':
                    if not vals:
                        raise PyRaise('struct.error')
                    bl = [self.num(x) for x in self.bytelist(vals.pop(0))][:c]
                    out.extend(bl + [K(0)] * (c - len(bl)))
                else:
                    for _ in range(c):
                        if not vals:
                            raise PyRaise('struct.error', 'missing value')
                        v = vals.pop(0)
                        if self.bits(v) is None:
                            if isinstance(v, (K, Text)):
                                raise PyRaise('struct.error')
                            raise Stop('packed value %r' % (v,))
                        try:
                            out.extend(self.tobytes(v, w, order))
                        except PyRaise:
                            raise PyRaise('struct.error', 'range')
            if vals:
                raise PyRaise('struct.error', 'too many values')
            if buf is None:
                return blist('bytes', out)
            if not (isinstance(buf, Inst) and buf.lst is not None):
                raise Stop('buffer')
            if buf.kind == 'bytes':
                raise PyRaise('TypeError', 'read-only buffer')
            if off.v < 0 or off.v + size > len(buf.lst):
                raise PyRaise('struct.error', 'buffer too small')
            buf.lst[off.v:off.v + size] = out
            self.event('mutate', buf)
            return NONE
        raise Stop('struct.%s' % name)

    def external(self, name, args, kw):
        if name.startswith('struct.') or name in ('pack_into', 'unpack_from'):
            s = name.split('.')[-1]
            if s == 'Struct' and args and isinstance(args[0], K):
                return StructV(args[0].v)
            if s == 'calcsize' and isinstance(args[0], K):
                p = parse_struct(args[0].v)
                return K(sum(w * c for _, w, c in p[0])) if p else Unknown('size')
            if s in ('pack', 'unpack', 'pack_into', 'unpack_from') and args and isinstance(args[0], K):
                return self.struct(s, args[0].v, args[1:], kw)
            return Unknown(name)
        s = name.split('.')[-1]
        if s == 'UUID' and (args or kw):
            bl = None
            if 'bytes_le' in kw:
                e = self.bytelist(kw['bytes_le'])
                if len(e) != 16:
                    raise PyRaise('ValueError')
                bl = e[3::-1] + e[5:3:-1] + e[7:5:-1] + e[8:]
            elif 'bytes' in kw:
                bl = self.bytelist(kw['bytes'])
            elif 'int' in kw:
                return Uuid(self.tobytes(kw['int'], 16, 'big'))
            elif 'hex' in kw or args:
                t = self.text(kw.get('hex', args[0] if args else None))
                if t is None:
                    raise Stop('uuid')
                t = [c for c in t if c not in ('-', '{', '}')]
                return Uuid(self.unhex(Text(t)))
            if bl is None or len(bl) != 16:
                raise Stop('uuid arguments')
            return Uuid([self.num(x) for x in bl])
        if s == 'uuid4':
            self.fresh += 1
            return Uuid(source_bytes('uuid4 %d' % self.fresh, 16))
        if s == 'hexlify' and args:
            return self.hexof(self.bytelist(args[0]))
        if s in ('unhexlify', 'a2b_hex') and args:
            return blist('bytes', self.unhex(args[0]))
        return Shapes.external(self, name, args, kw)
