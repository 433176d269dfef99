"""Values of the native interpreter: tuples.

('k', n)                 constant integer or bool
('bv', slots, signed)    integer assembled from data bytes; slots little endian, each None (zero),
                         'S' (sign of the slots below) or a byte id (epoch, offset)
('iv', L)                iteration number of loop L
('lin', c, ((atom, coef), ...))   linear form over atoms
('op', name, a, ...)     anything else computed
('cmp', 'eq'|'lt'|'le', a, b), ('not', c), ('and', a, b), ('or', a, b)
('cur', epoch, off)      position in the data; ('end', k) = end of the data + k
('ptr', loc, guards)     pointer or reference to a location
('avail', epoch, n)      at least n bytes are left at the start of the epoch
('dbl', slots)           8 bytes seen as a double
('ite', c, a, b)
"""

FALSE = ('k', 0)
TRUE = ('k', 1)
CONDS = ('cmp', 'not', 'and', 'or', 'avail', 'avsym', 'stc')


def k(n):
    return ('k', int(n))


def is_k(v):
    return v[0] == 'k'


def cb(v):
    """Canonical form of an integer, independent of the width it is held in."""
    if v[0] != 'bv':
        return v
    slots, signed = list(v[1]), v[2]
    top = None
    if slots and slots[-1] == 'S':
        while slots and slots[-1] == 'S':
            slots.pop()
        return ('bv', tuple(slots), True)
    n = len(slots)
    while slots and slots[-1] is None:
        slots.pop()
    if not slots:
        return ('k', 0)
    if len(slots) < n:
        signed = False
    return ('bv', tuple(slots), bool(signed))


def lin(v):
    """(const, {atom: coef}) of an integer value."""
    if v[0] == 'k':
        return v[1], {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    return 0, {cb(v): 1}


def unlin(c, d):
    d = {a: n for a, n in d.items() if n}
    if not d:
        return ('k', c)
    if c == 0 and len(d) == 1:
        (a, n), = d.items()
        if n == 1:
            return a
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, sign=1):
    if a[0] == 'cur' or b[0] == 'cur' or a[0] == 'end' or b[0] == 'end':
        return ptr_add(a, b, sign)
    ca, da = lin(a)
    cb_, db = lin(b)
    d = dict(da)
    for x, n in db.items():
        d[x] = d.get(x, 0) + sign * n
    return unlin(ca + sign * cb_, d)


def sub(a, b):
    return add(a, b, -1)


def ptr_add(a, b, sign):
    if sign == 1 and b[0] in ('cur', 'end'):
        a, b = b, a
    if a[0] == 'cur' and b[0] == 'cur' and sign == -1:
        if a[1] == b[1]:
            return ('k', a[2] - b[2])
        return ('op', 'ptrdiff', a, b)
    if a[0] == 'end' and b[0] == 'cur' and sign == -1:
        return unlin(a[1] - b[2], {('rem', b[1]): 1})
    if a[0] == 'cur' and b[0] == 'end' and sign == -1:
        return unlin(a[2] - b[1], {('rem', a[1]): -1})
    if a[0] == 'end' and b[0] == 'end' and sign == -1:
        return ('k', a[1] - b[1])
    if b[0] == 'k':
        if a[0] == 'cur':
            return ('cur', a[1], a[2] + sign * b[1])
        return ('end', a[1] + sign * b[1])
    c, d = lin(b)
    if a[0] == 'cur' and sign == 1 and d == {('rem', a[1]): 1}:
        return ('end', a[2] + c)
    return ('op', 'ptradd', a, b if sign == 1 else mulk(b, -1))


def mulk(a, n):
    c, d = lin(a)
    return unlin(c * n, {x: y * n for x, y in d.items()})


def cast(v, size, signed):
    if v[0] == 'k':
        n = v[1] & ((1 << 8 * size) - 1)
        if signed and n >> (8 * size - 1):
            n -= 1 << 8 * size
        return ('k', n)
    if v[0] == 'bv':
        slots = v[1]
        if len(slots) >= size:
            return ('bv', slots[:size], signed)
        fill = 'S' if v[2] and slots[-1] is not None else None
        return ('bv', slots + (fill,) * (size - len(slots)), signed)
    if v[0] == 'ite':
        return ite(v[1], cast(v[2], size, signed), cast(v[3], size, signed))
    if v[0] in ('iv', 'lin', 'op', 'len', 'lv') and size < 4:
        return ('op', 'cast', ('k', size), ('k', int(signed)), v)
    if v[0] == 'st':
        return ('st', v[1], cast(v[2], size, signed))
    return v


def ite(c, a, b):
    if a == b:
        return a
    if c[0] == 'k':
        return a if c[1] else b
    return ('ite', c, a, b)


def disjoint(a, b):
    return len(a) == len(b) and all(x is None or y is None for x, y in zip(a, b))


def widen(v, n):
    return cast(v, n, v[2]) if v[0] == 'bv' else v


def binop(op, a, b, size=4, signed=True):
    """Arithmetic on converted operands."""
    if a[0] == 'ite' and b[0] == 'k':
        return ite(a[1], binop(op, a[2], b, size, signed), binop(op, a[3], b, size, signed))
    if a[0] == 'k' and b[0] == 'k':
        x, y = a[1], b[1]
        try:
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                 '/': lambda: int(x / y) if abs(x) < 2 ** 52 else x // y, '%': lambda: x % y,
                 '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
        except (KeyError, ZeroDivisionError, ValueError):
            return ('op', op, a, b)
        return cast(('k', r), size, signed)
    if op in ('+', '|', '^') and a[0] == 'bv' and b[0] == 'bv':
        n = max(len(a[1]), len(b[1]))
        x, y = widen(a, n), widen(b, n)
        if disjoint(x[1], y[1]):
            slots = tuple(p if p is not None else q for p, q in zip(x[1], y[1]))
            return ('bv', slots, a[2] if len(a[1]) >= len(b[1]) else b[2])
    if op == '|':
        if a == ('k', 0):
            return b
        if b == ('k', 0):
            return a
    if op in ('<<', '*') and a[0] == 'bv' and b[0] == 'k':
        n = b[1] if op == '<<' else (b[1].bit_length() - 1 if b[1] > 0 and b[1] & (b[1] - 1) == 0 else None)
        if n is not None and n % 8 == 0:
            m = n // 8
            slots = (None,) * m + a[1]
            slots = slots[:len(a[1])]
            if n < 8 * len(a[1]):
                return ('bv', slots, a[2])
    if op == '*' and a[0] == 'k' and b[0] == 'bv':
        return binop(op, b, a, size, signed)
    if op == '>>' and a[0] == 'bv' and b[0] == 'k' and b[1] % 8 == 0:
        m = b[1] // 8
        if m < len(a[1]):
            fill = 'S' if a[2] and a[1][-1] is not None else None
            return ('bv', a[1][m:] + (fill,) * m, a[2])
    if op == '&' and (a[0] == 'bv' or b[0] == 'bv') and (a[0] == 'k' or b[0] == 'k'):
        v, m = (a, b[1]) if a[0] == 'bv' else (b, a[1])
        slots = []
        for i, s in enumerate(v[1]):
            byte = (m >> 8 * i) & 0xff
            if byte == 0xff:
                slots.append(s)
            elif byte == 0 or s is None:
                slots.append(None)
            else:
                break
        else:
            return ('bv', tuple(slots), v[2])
        return ('op', '&', cb(v), ('k', m))
    if op == '&' and b[0] == 'k' and a[0] == 'op' and a[1] == '>>' and a[3][0] == 'k':
        return ('op', '>>', binop('&', a[2], ('k', b[1] << a[3][1])), a[3])
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*' and (a[0] == 'k' or b[0] == 'k'):
        return mulk(a, b[1]) if b[0] == 'k' else mulk(b, a[1])
    if op == '/' and b == ('k', 1):
        return a
    if op == '>>' and b[0] == 'k' and a[0] != 'op' and not signed:
        return ('op', '>>', cb(a), b)
    if op == '%' and a[0] == 'bv' and b[0] == 'k' and b[1] in (256, 65536):
        return binop('&', a, ('k', b[1] - 1))
    return ('op', op, cb(a), cb(b))


def neg(c):
    if c[0] == 'k':
        return FALSE if c[1] else TRUE
    if c[0] == 'not':
        return c[1]
    if c[0] == 'stc':
        return ('stc', c[1], neg(c[2]), neg(c[3]))
    if c[0] == 'and':
        return ('or', neg(c[1]), neg(c[2]))
    if c[0] == 'or':
        return ('and', neg(c[1]), neg(c[2]))
    if c[0] in ('cmp', 'avail', 'avsym'):
        return ('not', c)
    return ('not', c)


def truth(v):
    """An integer or pointer used as a condition."""
    if v[0] == 'k':
        return TRUE if v[1] else FALSE
    if v[0] in CONDS:
        return v
    if v[0] == 'ite':
        return cite(v[1], truth(v[2]), truth(v[3]))
    if v[0] == 'st':
        return cmpv('ne', v, ('k', 0))
    if v[0] in ('ptr', 'cur', 'str'):
        return TRUE
    if v[0] == 'null':
        return FALSE
    if v[0] == 'op' and v[1] == '>>' and v[2][0] == 'op' and v[2][1] == '&':
        if v[2][3][0] == 'k' and v[2][3][1] & ((1 << v[3][1]) - 1) == 0:
            return truth(v[2])
    return neg(('cmp', 'eq', cb(v), ('k', 0)))


def cite(c, a, b):
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return neg(c)
    if a == FALSE:
        return ('and', neg(c), b)
    if b == FALSE:
        return ('and', c, a)
    if a == TRUE:
        return ('or', c, b)
    if b == TRUE:
        return ('or', neg(c), a)
    return ('ite', c, a, b)


def krange(v):
    """(low, high) of a value when its type bounds it."""
    if v[0] == 'k':
        return v[1], v[1]
    v = cb(v)
    if v[0] == 'bv':
        n = len(v[1])
        if None in v[1][-1:] or n == 0:
            return 0, (1 << 8 * n) - 1
        return (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if v[2] else (0, (1 << 8 * n) - 1)
    if v[0] in ('iv', 'len', 'rem'):
        return 0, None
    if v[0] == 'op' and v[1] == '&' and v[3][0] == 'k':
        return 0, v[3][1]
    return None, None


def cmpv(op, a, b):
    """Comparison in canonical form."""
    if op == 'ne':
        return neg(cmpv('eq', a, b))
    if op == 'gt':
        return cmpv('lt', b, a)
    if op == 'ge':
        return cmpv('le', b, a)
    if a[0] == 'st' or b[0] == 'st':
        s = a if a[0] == 'st' else b
        good = cmpv(op, a[2] if a[0] == 'st' else a, b[2] if b[0] == 'st' else b)
        # the failing value is substituted by the interpreter
        return ('stc', ((s[1], op, a if a[0] != 'st' else None, b if b[0] != 'st' else None),), good, None)
    if a[0] in CONDS and b[0] == 'k' and op == 'eq':
        return a if b[1] == 1 else neg(a) if b[1] == 0 else FALSE
    if b[0] in CONDS and a[0] == 'k' and op == 'eq':
        return cmpv(op, b, a)
    if a[0] == 'ite':
        return cite(a[1], cmpv(op, a[2], b), cmpv(op, a[3], b))
    if b[0] == 'ite':
        return cite(b[1], cmpv(op, a, b[2]), cmpv(op, a, b[3]))
    # positions against the end of the data
    pa, pb = a[0] in ('cur', 'end'), b[0] in ('cur', 'end')
    if pa and pb:
        d = sub(b, a)          # b - a
        if d[0] == 'k':
            n = d[1]
            return TRUE if (op == 'lt' and n > 0) or (op == 'le' and n >= 0) or (op == 'eq' and n == 0) else FALSE
        c, at = lin(d)
        if len(at) == 1:
            (atom, co), = at.items()
            if atom[0] == 'rem':
                return remcmp(op, c, atom[1], co)
        return ('cmp', op, a, b)
    if a[0] == 'ptr' and b[0] == 'ptr' and a[1] and b[1] and a[1][:-1] == b[1][:-1] and a[1][-1][0] == 'e' and b[1][-1][0] == 'e':
        return cmpv(op, a[1][-1][1], b[1][-1][1])
    if a[0] in ('ptr', 'cur', 'str') and b[0] == 'null':
        return FALSE
    ca, da = lin(a)
    cb_, db = lin(b)
    d = dict(db)
    for x, n in da.items():
        d[x] = d.get(x, 0) - n
    d = {x: n for x, n in d.items() if n}
    c = cb_ - ca
    if not d:
        return TRUE if (op == 'lt' and c > 0) or (op == 'le' and c >= 0) or (op == 'eq' and c == 0) else FALSE
    rems = [x for x in d if x[0] == 'rem' or (x[0] == 'op' and x[1] == '/' and x[3][0] == 'k' and has_rem(x[2]))]
    if rems and op in ('lt', 'le', 'eq'):
        if len(d) == 1 and rems[0][0] == 'rem':
            return remcmp(op, c, rems[0][1], d[rems[0]])
        if len(rems) == 1:
            return remsym(op, c, d, rems[0])
    if len(d) == 1:
        (atom, co), = d.items()
        if abs(co) == 1:
            lo, hi = krange(atom)
            # op: 0 op c + co*atom
            if co == -1:        # atom op c
                if op == 'le':
                    op, c = 'lt', c + 1
                if op == 'lt':
                    if lo is not None and lo >= c:
                        return FALSE
                    if hi is not None and hi < c:
                        return TRUE
                    if lo is not None and lo == c - 1:
                        return ('cmp', 'eq', atom, ('k', lo))
                    return ('cmp', 'lt', atom, ('k', c))
                if (lo is not None and c < lo) or (hi is not None and c > hi):
                    return FALSE
                return ('cmp', 'eq', atom, ('k', c))
            if op == 'eq':
                if (lo is not None and -c < lo) or (hi is not None and -c > hi):
                    return FALSE
                return ('cmp', 'eq', atom, ('k', -c))
            # -c op atom  ->  not (atom < ...)
            if op == 'lt':
                op, n = 'le', -c + 1
            else:
                n = -c
            return neg(cmpv('lt', atom, ('k', n)))
    # keep a and b, canonical
    x = unlin(0, {q: -n for q, n in d.items() if n < 0})
    y = unlin(c, {q: n for q, n in d.items() if n > 0})
    if op == 'eq' and repr(y) < repr(x):
        x, y = y, x
    return ('cmp', op, x, y)


def has_rem(v):
    if v[0] == 'rem':
        return True
    if v[0] == 'lin':
        return any(a[0] == 'rem' for a, n in v[2])
    return False


def remcmp(op, c, e, co):
    """0 op c + co*rem(e)"""
    if op == 'eq':
        return ('op', 'atend', ('k', e), ('k', -c // co))
    if co == 1:
        n = -c if op == 'le' else -c + 1        # rem >= -c
        return TRUE if n <= 0 else ('avail', e, n)
    if co == -1:
        n = c if op == 'le' else c - 1          # rem <= c
        return neg(('avail', e, n + 1)) if n + 1 > 0 else FALSE
    return ('op', 'remcmp', ('k', c), ('k', e), ('k', co))


def remsym(op, c, d, ratom):
    """0 op c + d, where one atom of d measures what is left."""
    co = d[ratom]
    rest = unlin(c, {x: n for x, n in d.items() if x != ratom})
    if op == 'eq':
        return ('op', 'remeq', ratom, rest)
    if abs(co) != 1:
        return ('op', 'remsym', ratom, rest, ('k', co))
    if co == 1:
        # rem (/m) >= -rest
        need, sense = mulk(rest, -1), True
        if op == 'lt':
            need = add(need, ('k', 1))
    else:
        # rem <= rest   ->  not (rem >= rest + 1)
        need, sense = rest, False
        need = add(need, ('k', 1)) if op == 'le' else need
    mult, base = 1, ratom
    if ratom[0] == 'op':
        mult, base = ratom[3][1], ratom[2]
    bc, bd = lin(base)
    e = [x for x in bd if x[0] == 'rem'][0][1]
    r = ('avsym', e, need, mult, bc)       # (rem(e) + bc) / mult >= need
    return r if sense else ('not', r)


def subst(v, f):
    """Rebuild a value bottom-up through f."""
    if not isinstance(v, tuple) or not v:
        return v
    return f(tuple(subst(x, f) if isinstance(x, tuple) else x for x in v))


def assume(v, facts):
    """Simplify v under a list of conditions known to hold."""
    if not isinstance(v, tuple):
        return v
    if v[0] == 'ite':
        c = decide(v[1], facts)
        if c is True:
            return assume(v[2], facts)
        if c is False:
            return assume(v[3], facts)
        return ite(v[1], assume(v[2], facts + [v[1]]), assume(v[3], facts + [neg(v[1])]))
    return v


def decide(c, facts):
    if c[0] == 'k':
        return bool(c[1])
    if c[0] == 'not':
        r = decide(c[1], facts)
        return None if r is None else not r
    if c[0] == 'and':
        a, b = decide(c[1], facts), decide(c[2], facts)
        if a is False or b is False:
            return False
        return True if a and b else None
    if c[0] == 'or':
        a, b = decide(c[1], facts), decide(c[2], facts)
        if a or b:
            return True
        return False if a is False and b is False else None
    for f in facts:
        if f == c:
            return True
        if f == neg(c):
            return False
        if f[0] == 'and' and (decide(c, [f[1], f[2]]) is not None):
            return decide(c, [f[1], f[2]])
        if f[0] == 'or' and c[0] == 'cmp':
            a, b = decide(c, [f[1]]), decide(c, [f[2]])
            if a is not None and a == b:
                return a
        if f[0] == 'cmp' and c[0] == 'cmp' and f[2] == c[2] and f[3][0] == 'k' and c[3][0] == 'k':
            if f[1] == 'eq':
                n = f[3][1]
                return {'eq': n == c[3][1], 'lt': n < c[3][1], 'le': n <= c[3][1]}[c[1]]
            if f[1] == 'lt' and c[1] == 'lt' and f[3][1] <= c[3][1]:
                return True
            if f[1] == 'lt' and c[1] == 'eq' and c[3][1] >= f[3][1]:
                return False
        if f[0] == 'not' and f[1][0] == 'cmp' and c[0] == 'cmp' and f[1][2] == c[2] and f[1][1] == 'lt' and f[1][3][0] == 'k' and c[3][0] == 'k':
            if c[1] == 'lt' and c[3][1] <= f[1][3][1]:
                return False
            if c[1] == 'eq' and c[3][1] < f[1][3][1]:
                return False
    return None
