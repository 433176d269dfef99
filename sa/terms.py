"""Abstract values of the extractor: immutable terms plus their simplification."""


def C(v):
    if isinstance(v, bytearray):
        v = bytes(v)
    return ('c', type(v).__name__, v)


def is_c(t):
    return t[0] == 'c'


def cv(t):
    return t[2]


TRUE = C(True)
FALSE = C(False)
NONE = C(None)
UNSET = ('unset',)
_n = [0]


def unk(reason=''):
    _n[0] += 1
    return ('unk', _n[0], reason)


def walk(t):
    """All subterms (terms only)."""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            if isinstance(x, tuple):
                stack.extend(y for y in x if isinstance(y, tuple))
            continue
        yield x
        if x[0] == 'c':
            continue
        for y in x[1:]:
            if isinstance(y, tuple):
                stack.append(y)


def has_unk(t):
    return any(x[0] == 'unk' for x in walk(t))


def wires(t):
    return {x[1] for x in walk(t) if x[0] == 'wire'}


# --- linear sums -----------------------------------------------------------

def as_lin(t):
    """-> (dict term->coef, const) ; never fails"""
    if is_c(t) and isinstance(cv(t), (int, float)) and not isinstance(cv(t), bool):
        return {}, cv(t)
    if t[0] == 'sum':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(d, k):
    d = {t: c for t, c in d.items() if c != 0}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ('sum', tuple(sorted(d.items(), key=repr)), k)


def add(a, b, sign=1):
    if is_c(a) and is_c(b):
        try:
            return C(cv(a) + cv(b) if sign == 1 else cv(a) - cv(b))
        except Exception:
            return unk('add')
    for x in (a, b):
        if is_c(x) and not isinstance(cv(x), (int, float)):
            if sign == 1:
                return ('cat', a, b)
            return ('op', '-', a, b)
        if x[0] in ('cat', 'obj') or (x[0] == 'call' and x[1] in ('encode', 'bytes_le', 'bytes')):
            if sign == 1:
                return ('cat', a, b)
    da, ka = as_lin(a)
    db, kb = as_lin(b)
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + sign * c
    return mk_lin(d, ka + sign * kb)


def mul(a, b):
    if is_c(a) and is_c(b):
        try:
            return C(cv(a) * cv(b))
        except Exception:
            return unk('mul')
    for x, y in ((a, b), (b, a)):
        if is_c(x) and isinstance(cv(x), int) and not isinstance(cv(x), bool):
            d, k = as_lin(y)
            return mk_lin({t: c * cv(x) for t, c in d.items()}, k * cv(x))
    return ('op', '*', a, b)


def as_bits(t):
    """bit-set form: (frozenset of (mask, cond term)) plus constant, or None"""
    if is_c(t) and isinstance(cv(t), int) and not isinstance(cv(t), bool):
        return {}, cv(t)
    if t[0] == 'bits':
        return dict(t[1]), t[2]
    if t[0] == 'ite' and is_c(t[2]) and is_c(t[3]):
        a, b = cv(t[2]), cv(t[3])
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            if b == 0 and a:
                return {a: t[1]}, 0
            if a == 0 and b:
                return {b: neg(t[1])}, 0
    return None


def mk_bits(d, k):
    if not d:
        return C(k)
    return ('bits', tuple(sorted(d.items(), key=repr)), k)


def bit_or(a, b):
    if is_c(a) and is_c(b):
        try:
            return C(cv(a) | cv(b))
        except Exception:
            return unk('or')
    x, y = as_bits(a), as_bits(b)
    if x is not None and y is not None:
        d = dict(x[0])
        k = x[1] | y[1]
        ok = True
        for m, c in y[0].items():
            if m in d and d[m] != c:
                ok = False
            d[m] = c
        if ok:
            return mk_bits(d, k)
    return ('op', '|', a, b)


def bit_and(a, b):
    if is_c(a) and is_c(b):
        try:
            return C(cv(a) & cv(b))
        except Exception:
            return unk('and')
    for x, y in ((a, b), (b, a)):
        if is_c(y) and isinstance(cv(y), int):
            f = as_bits(x)
            if f is not None and x[0] == 'bits':
                d = {}
                for m, c in f[0].items():
                    if m & cv(y):
                        d[m & cv(y)] = c
                return mk_bits(d, f[1] & cv(y))
    if is_c(a):
        a, b = b, a
    return ('op', '&', a, b)


def truth(t):
    """condition term for truthiness of t"""
    if is_c(t):
        return C(bool(cv(t)))
    if t[0] in ('cmp', 'not', 'and', 'or', 'has', 'isinst', 'truthy'):
        return t
    if t[0] == 'bits':
        d, k = dict(t[1]), t[2]
        if k:
            return TRUE
        r = FALSE
        for m, c in d.items():
            r = disj(r, c)
        return r
    if t[0] == 'ite':
        a, b = truth(t[2]), truth(t[3])
        return ite(t[1], a, b)
    if t[0] == 'sum' and t[2] == 0 and len(t[1]) == 1 and t[1][0][0][0] == 'len':
        return ('cmp', '!=', t[1][0][0], C(0))
    if t[0] == 'len':
        return ('cmp', '!=', t, C(0))
    if t[0] in ('tup',):
        return C(len(t) > 1)
    if t[0] == 'boolv':
        return t[1]
    return ('truthy', t)


def neg(c):
    if is_c(c):
        return C(not cv(c))
    if c[0] == 'not':
        return c[1]
    if c[0] == 'cmp':
        inv = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>',
               'in': 'not in', 'not in': 'in', 'is': 'is not', 'is not': 'is'}
        if c[1] in inv:
            return ('cmp', inv[c[1]], c[2], c[3])
    return ('not', c)


def conj(a, b):
    if is_c(a):
        return b if cv(a) else FALSE
    if is_c(b):
        return a if cv(b) else FALSE
    if a == b:
        return a
    return ('and', a, b)


def disj(a, b):
    if is_c(a):
        return TRUE if cv(a) else b
    if is_c(b):
        return TRUE if cv(b) else a
    if a == b:
        return a
    return ('or', a, b)


def ite(c, a, b):
    if is_c(c):
        return a if cv(c) else b
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return ('boolv', c)
    if a == FALSE and b == TRUE:
        return ('boolv', neg(c))
    # flags |= k under a condition
    if a[0] in ('bits', 'c', 'op') or b[0] in ('bits', 'c'):
        fa, fb = as_bits(a), as_bits(b)
        if fa is not None and fb is not None and (a[0] == 'bits' or b[0] == 'bits'):
            da, ka = fa
            db, kb = fb
            common = {m: x for m, x in da.items() if db.get(m) == x}
            oa = {m: x for m, x in da.items() if m not in common}
            ob = {m: x for m, x in db.items() if m not in common}
            if not oa and not ob:
                d = dict(common)
                k = ka & kb
                ok = True
                for extra, cc in ((ka & ~kb, c), (kb & ~ka, neg(c))):
                    if extra:
                        if extra in d:
                            ok = False
                        d[extra] = cc
                if ok:
                    return mk_bits(d, k)
    return ('ite', c, a, b)


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b,
       'is': lambda a, b: a is b or a == b and type(a) is type(b), 'is not': lambda a, b: not (a is b or a == b and type(a) is type(b))}

FLIP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def cmp_(op, a, b):
    if is_c(a) and is_c(b):
        try:
            return C(bool(CMP[op](cv(a), cv(b))))
        except Exception:
            return unk('cmp')
    if op in FLIP and is_c(a) and not is_c(b):
        a, b, op = b, a, FLIP[op]
    if op in ('==', '!=') and not is_c(b) and repr(b) < repr(a):
        a, b = b, a
    if a == b and not has_unk(a):
        if op in ('==', '<=', '>=', 'is'):
            return TRUE
        if op in ('!=', '<', '>', 'is not'):
            return FALSE
    if is_c(b) and a[0] == 'boolv' and op in ('==', '!=', 'is', 'is not') and isinstance(cv(b), (bool, int)):
        v = bool(cv(b))
        if cv(b) in (0, 1):
            r = a[1] if v else neg(a[1])
            return r if op in ('==', 'is') else neg(r)
    if is_c(b) and a[0] == 'ite' and (is_c(a[2]) or is_c(a[3])):
        return truth(ite(a[1], cmp_(op, a[2], b), cmp_(op, a[3], b)))
    if op in ('is', 'is not') and b == NONE and a[0] in ('obj', 'cls', 'fn', 'tup'):
        return C(op == 'is not')
    if op in ('==', '!=') and b == NONE:
        op = 'is' if op == '==' else 'is not'
    # linear: move constants right
    if op in FLIP and a[0] == 'sum' and is_c(b) and isinstance(cv(b), int):
        d, k = as_lin(a)
        return ('cmp', op, mk_lin(d, 0), C(cv(b) - k))
    return ('cmp', op, a, b)


COERCE = ('bytearray', 'bytes', 'list', 'tuple', 'int', 'float', 'str', 'bool', 'copy')


def subst(t, m, cache=None):
    """replace ('wire', n) by m[n] (when present) and re-simplify"""
    if cache is None:
        cache = {}
    k = t
    if k in cache:
        return cache[k]
    r = _subst(t, m, cache)
    cache[k] = r
    return r


def _subst(t, m, cache):
    if not isinstance(t, tuple) or not t:
        return t
    h = t[0]
    if h == 'c' or h in ('unk', 'obj', 'cls', 'fn', 'mod'):
        return t
    if h == 'wire':
        return m.get(t[1], t)
    if h == 'exttag':
        return m.get(t, t)
    s = lambda x: subst(x, m, cache)
    if h == 'ite':
        return ite(truth(s(t[1])), s(t[2]), s(t[3]))
    if h == 'cmp':
        return cmp_(t[1], s(t[2]), s(t[3]))
    if h == 'not':
        return neg(truth(s(t[1])))
    if h == 'and':
        return conj(truth(s(t[1])), truth(s(t[2])))
    if h == 'or':
        return disj(truth(s(t[1])), truth(s(t[2])))
    if h == 'truthy':
        return truth(s(t[1]))
    if h == 'boolv':
        c = truth(s(t[1]))
        return ('boolv', c) if not is_c(c) else c
    if h == 'sum':
        r = C(t[2])
        for x, c in t[1]:
            r = add(r, mul(s(x), C(c)))
        return r
    if h == 'bits':
        d = {}
        k = t[2]
        for mk, c in t[1]:
            cc = truth(s(c))
            if is_c(cc):
                if cv(cc):
                    k |= mk
            else:
                d[mk] = cc
        return mk_bits(d, k)
    if h == 'op':
        return op_(t[1], s(t[2]), s(t[3]))
    if h == 'cat':
        a, b = s(t[1]), s(t[2])
        return add(a, b)
    if h == 'len':
        return len_(s(t[1]))
    if h == 'elem':
        b = s(t[1])
        if b[0] == 'mapped':
            return b[2]
        return ('elem', b)
    out = [h]
    for x in t[1:]:
        if isinstance(x, tuple):
            out.append(subst(x, m, cache) if x and isinstance(x[0], str) else tuple(
                subst(y, m, cache) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x))
        else:
            out.append(x)
    return tuple(out)


def op_(op, a, b):
    if op == '+':
        return add(a, b)
    if op == '-':
        return add(a, b, -1)
    if op == '*':
        return mul(a, b)
    if op == '|':
        return bit_or(a, b)
    if op == '&':
        return bit_and(a, b)
    if is_c(a) and is_c(b):
        import ast as _a
        from .load import binop
        ops = {'//': _a.FloorDiv(), '/': _a.Div(), '%': _a.Mod(), '<<': _a.LShift(),
               '>>': _a.RShift(), '^': _a.BitXor(), '**': _a.Pow()}
        try:
            return C(binop(ops[op], cv(a), cv(b)))
        except Exception:
            return unk('op')
    if op == '//' and is_c(b) and cv(b):
        d, k = as_lin(a)
        if all(c % cv(b) == 0 for c in d.values()) and k % cv(b) == 0:
            return mk_lin({t: c // cv(b) for t, c in d.items()}, k // cv(b))
    if op == '/' and is_c(b) and cv(b):
        d, k = as_lin(a)
        if isinstance(cv(b), int) and all(isinstance(c, int) and c % cv(b) == 0 for c in d.values()) and isinstance(k, int) and k % cv(b) == 0:
            return mk_lin({t: c // cv(b) for t, c in d.items()}, k // cv(b))
    return ('op', op, a, b)


def len_(t):
    if is_c(t):
        try:
            return C(len(cv(t)))
        except Exception:
            return unk('len')
    if t[0] == 'tup':
        return C(len(t) - 1)
    if t[0] == 'cat':
        return add(len_(t[1]), len_(t[2]))
    if t[0] == 'call' and t[1] in ('bytearray', 'bytes', 'list', 'tuple', 'copy') and len(t) == 3:
        return len_(t[2])
    if t[0] == 'rawbytes':
        return t[2]
    if t[0] == 'mapped':
        return t[1]
    return ('len', t)


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    h = t[0]
    if h == 'c':
        if isinstance(t[2], int) and not isinstance(t[2], bool) and t[2] > 15:
            return hex(t[2])
        return repr(t[2])
    if h == 'self':
        return 'self'
    if h == 'attr':
        return "%s.%s" % (show(t[1]), t[2])
    if h == 'elem':
        return "%s[*]" % show(t[1])
    if h == 'key':
        return "%s{key}" % show(t[1])
    if h == 'val':
        return "%s{*}" % show(t[1])
    if h == 'idx':
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if h == 'len':
        return "len(%s)" % show(t[1])
    if h == 'wire':
        return "<field %d>" % t[1]
    if h == 'cmp':
        return "%s %s %s" % (show(t[2]), t[1], show(t[3]))
    if h == 'op':
        return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if h == 'sum':
        return "(%s%s)" % (" + ".join(show(x) if c == 1 else "%s*%s" % (c, show(x)) for x, c in t[1]),
                           (" + %s" % t[2]) if t[2] else "")
    if h == 'not':
        return "not %s" % show(t[1])
    if h in ('and', 'or'):
        return "(%s %s %s)" % (show(t[1]), h, show(t[2]))
    if h == 'has':
        return "has(%s.%s)" % (show(t[1]), t[2])
    if h == 'truthy':
        return "bool(%s)" % show(t[1])
    if h == 'boolv':
        return show(t[1])
    if h == 'ite':
        return "(%s if %s else %s)" % (show(t[2]), show(t[1]), show(t[3]))
    if h == 'call':
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if h == 'unk':
        return "?%s" % (t[2] or t[1])
    if h == 'tup':
        return "(%s)" % ", ".join(show(x) for x in t[1:])
    return "%s(%s)" % (h, ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))
