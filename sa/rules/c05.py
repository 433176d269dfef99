"""C05: the composite values (strings, identifiers, dates, rectangles, colours, scaled
numbers) are decoded by the inverse of how they are encoded, in both byte orders."""
import struct
from ..pe import PE, P, Loop, Alt, Opaque, Raise, STREAM, C, is_c, cv
from ..load import Func
from .. import terms as T
from ..wire import strip, facts_of, replace

V = ('param', 'value')
SIZE = {'u8': 1, 's8': 1, 'bool': 1, 'u16': 2, 's16': 2, 'u32': 4, 's32': 4, 'u64': 8, 's64': 8, 'double': 8}
# fields of a UUID by most significant byte first
UUID_FIELDS = {'time_low': [0, 1, 2, 3], 'time_mid': [4, 5], 'time_hi_version': [6, 7], 'clock_seq_hi_variant': [8], 'clock_seq_low': [9],
               'node': [10, 11, 12, 13, 14, 15]}
UUID_LE = [3, 2, 1, 0, 5, 4, 7, 6] + list(range(8, 16))


def check(prog, rep, tier):
    rep.rule("For each composite codec the encoder is walked to the sequence of bytes it emits, each byte labelled with the part of "
             "the value it holds, separately for both byte orders; the decoder is walked over that sequence and must put every "
             "part back where it came from (identifiers byte by byte; records field by field; strings: same encoding, a length "
             "equal to what follows, no length that means something else; dates: inverse conversions).")
    rep.assume("The library conversions (UUID, struct, str.encode, datetime) have their documented meaning. The arithmetic that "
               "picks mantissa and exponent of a scaled number is not decided, only how the two are laid out and recombined.")
    ctx = prog.need_class('AVBIOContext')
    for order in ('little', 'big'):
        for k in ('uuid', 'raw_uuid'):
            guard(rep, '%s %s' % (k, order), uuid, prog, ctx, rep, k, order)
    for k, n in (('rect', 4), ('rgb_color', 3)):
        guard(rep, k, record, prog, ctx, rep, k, n)
    guard(rep, 'mob_id', mobid, prog, ctx, rep)
    guard(rep, 'datetime', dates, prog, ctx, rep)
    guard(rep, 'exp10_encoded_float', exp10, prog, ctx, rep)
    guard(rep, 'bool', boolean, prog, ctx, rep)
    for enc in ('macroman', 'utf-8'):
        guard(rep, 'string %s' % enc, string, prog, ctx, rep, enc)
    rep.need('codecs analysed', 10)


def guard(rep, unit, fn, *a):
    rep.count('codecs analysed')
    try:
        fn(*a)
    except Skip as e:
        rep.unclear(unit, str(e))
    except Exception as e:
        rep.unclear(unit, "%s: %s" % (type(e).__name__, e))


class Skip(Exception):
    pass


def pair(prog, ctx, name, order, inline, extra=(), types=None):
    res = []
    for mode, pre, args in (('r', 'read_', [STREAM]), ('w', 'write_', [STREAM, V])):
        f = ctx.find_method(pre + name)
        if not isinstance(f, Func):
            raise Skip('no %s%s' % (pre, name))
        pe = PE(prog, mode, ctx, prims=False, types=types)
        pe.inline_only = set(inline)
        pe.order = order
        pe.raw_fields = True
        v = pe.run(f, ('ctx', 'self') if f.kind == 'method' else None, args + list(extra))
        res.append((f, pe, v))
    return res


def flat(l):
    out = []
    for n in l:
        if isinstance(n, P):
            out.append(n)
        elif isinstance(n, Raise):
            continue
        else:
            raise Skip('%s is not a plain sequence' % n)
    return out


class LoseTrack(object):
    pass


def helpers(ctx, *skip):
    """the context's other methods, which are looked through"""
    return {m for m in ctx.methods if m not in skip}


PRIMS = {'read_' + k for k in list(SIZE) + ['fourcc']} | {'write_' + k for k in list(SIZE) + ['fourcc']} | \
    {a + k + e for a in ('read_', 'write_') for k in list(SIZE) + ['double_', 'fourcc_'] for e in ('le', 'be')} | {'read_assert_tag', 'iter_ext'}


def vbytes(v, order):
    """labels of the bytes of an expression over a UUID value"""
    v = strip_coerce(v)
    if v[0] == 'attr' and v[1] == V and v[2] == 'bytes_le':
        return list(UUID_LE)
    if v[0] == 'attr' and v[1] == V and v[2] in ('bytes',):
        return list(range(16))
    if v[0] == 'slice':
        b = vbytes(v[1], order)
        lo = cv(v[2]) if is_c(v[2]) else None
        if not is_c(v[2]) or not is_c(v[3]):
            raise Skip('slice')
        return b[cv(v[2]):cv(v[3])]
    if v[0] == 'cat':
        return vbytes(v[1], order) + vbytes(v[2], order)
    if v[0] == 'call' and v[1] == 'revbytes':
        return vbytes(v[2], order)[::-1]
    if is_c(v) and isinstance(cv(v), (bytes, bytearray)):
        return [('const', x) for x in cv(v)]
    raise Skip('bytes of %s' % T.show(v))


def strip_coerce(v):
    while v[0] == 'call' and v[1] in T.COERCE and len(v) == 3:
        v = v[2]
    return v


def emitted(pe, order):
    out = []
    for n in flat(pe.out):
        if n.kind == 'raw':
            out += vbytes(n.val, order)
            continue
        size = SIZE[n.kind]
        o = {'le': 'little', 'be': 'big'}.get(n.endian, order)
        v = strip_coerce(n.val)
        if is_c(v):
            b = int(cv(v)).to_bytes(size, o, signed=cv(v) < 0)
            out += [('const', x) for x in b]
            continue
        if v[0] == 'attr' and v[1] == V and v[2] in UUID_FIELDS and len(UUID_FIELDS[v[2]]) == size:
            b = UUID_FIELDS[v[2]]
            out += b if o == 'big' else b[::-1]
            continue
        raise Skip('%s' % T.show(n.val))
    return out


def uuid(prog, ctx, rep, name, order):
    (rf, rpe, rv), (wf, wpe, wv) = pair(prog, ctx, name, order, helpers(ctx) - PRIMS)
    data = emitted(wpe, order)
    pos = 0
    bound = {}

    def bad(msg):
        rep.finding('%s/%s/%s' % (name, order, msg), 'read_%s and write_%s disagree for %s endian files: %s' % (name, name, order, msg),
                    "%s and %s" % (rf.where, wf.where))
    for n in flat(rpe.out):
        size = SIZE.get(n.kind)
        if n.kind == 'raw':
            if n.size is None or not is_c(n.size):
                raise Skip('size')
            size = cv(n.size)
        part = data[pos:pos + size]
        pos += size
        if len(part) < size:
            return bad('%d bytes are read but %d written' % (pos, len(data)))
        bound[n.id] = part
        if n.const is not None and is_c(n.const):
            o = {'le': 'little', 'be': 'big'}.get(n.endian, order)
            want = [('const', x) for x in int(cv(n.const)).to_bytes(size, o)]
            if part != want:
                return bad('the reader expects %s where the writer puts %s' % (T.show(n.const), part))
    if pos != len(data):
        return bad('%d bytes are read but %d written' % (pos, len(data)))
    rv2 = choose(rv)

    def rb(v):
        v = strip_coerce(v)
        if v[0] == 'wire':
            return bound[v[1]]
        if v[0] == 'cat':
            return rb(v[1]) + rb(v[2])
        if is_c(v) and cv(v) in (b'', ''):
            return []
        if v[0] == 'slice' and is_c(v[2]) and is_c(v[3]):
            return rb(v[1])[cv(v[2]):cv(v[3])]
        if v[0] == 'call' and v[1] == 'revbytes':
            return rb(v[2])[::-1]
        raise Skip(T.show(v))
    if rv2[0] != 'call' or rv2[1] not in ('UUID_le', 'UUID_be'):
        raise Skip('result %s' % T.show(rv2))
    b = rb(rv2[2])
    perm = UUID_LE if rv2[1] == 'UUID_le' else list(range(16))
    if len(b) != 16:
        return bad('the identifier is built from %d bytes' % len(b))
    res = [None] * 16
    for i, p in enumerate(perm):
        res[p] = b[i]
    if res != list(range(16)):
        return bad('bytes of the identifier end up in the order %s' % (res,))
    rep.count('codecs proved inverse')


def choose(v):
    return v


def wired(rpe, wpe):
    """pair the primitives of two plain sequences: {wire id: written value}"""
    r = [n for n in flat(rpe.out)]
    w = []
    for n in wpe.out:
        w.append(n)
    sigma = {}
    i = j = 0
    while i < len(r):
        if j >= len(w):
            return None, 'the reader takes %d parts, the writer emits %d' % (len(r), j)
        n = w[j]
        if isinstance(n, Raise):
            j += 1
            continue
        if isinstance(n, Loop) and len(n.body) == 1 and isinstance(n.body[0], P) and n.base is not None:
            k = 0
            while i + k < len(r) and r[i + k].kind == n.body[0].kind and r[i + k].const is None:
                k += 1
            want = None
            if j and isinstance(w[j - 1], P) and is_c(w[j - 1].val or ('x',)):
                want = cv(w[j - 1].val)
            m = want if want is not None and want <= k else k
            for q in range(m):
                sigma[r[i + q].id] = replace(n.body[0].val, ('elem', n.base), ('idx', n.base, C(q)))
            i += m
            j += 1
            continue
        if not isinstance(n, P):
            raise Skip('%s' % n)
        a = r[i]
        if a.kind != n.kind:
            return None, 'part %d is read as %s but written as %s' % (i, a.kind, n.kind)
        if a.const is not None:
            if n.val is not None and is_c(n.val) and cv(n.val) != cv(a.const):
                return None, 'the reader expects %s where the writer puts %s' % (T.show(a.const), T.show(n.val))
        elif n.val is not None:
            sigma[a.id] = n.val
        i += 1
        j += 1
    rest = [n for n in w[j:] if not isinstance(n, Raise)]
    if rest:
        return None, 'the writer emits more than the reader takes'
    return sigma, None


def record(prog, ctx, rep, name, n):
    (rf, rpe, rv), (wf, wpe, wv) = pair(prog, ctx, name, None, helpers(ctx) - PRIMS)
    sigma, err = wired(rpe, wpe)

    def bad(msg):
        rep.finding('%s/%s' % (name, msg), 'read_%s and write_%s disagree: %s' % (name, name, msg), "%s and %s" % (rf.where, wf.where))
    if err:
        return bad(err)
    o = rpe.ho(rv)
    items = None
    if o is not None and o.kind == 'list':
        items = [x[1] if isinstance(x, tuple) and x[0] == 'one' else x for x in o.items]
    elif rv[0] == 'tup':
        items = list(rv[1:])
    if items is None:
        raise Skip('result %s' % T.show(rv))
    if len(items) != n:
        raise Skip('%d items' % len(items))
    for i, x in enumerate(items):
        x = T.subst(x, sigma)
        x = strip_coerce(x)
        if T.has_unk(x):
            raise Skip('item %d' % i)
        if x != ('idx', V, C(i)):
            return bad('part %d read is %s' % (i, T.show(x)))
    rep.count('codecs proved inverse')


def mobid(prog, ctx, rep):
    name = 'mob_id'
    (rf, rpe, rv), (wf, wpe, wv) = pair(prog, ctx, name, None, (helpers(ctx) - PRIMS) - {'read_uuid', 'write_uuid'})
    sigma, err = wired(rpe, wpe)

    def bad(msg):
        rep.finding('%s/%s' % (name, msg), 'read_mob_id and write_mob_id disagree: %s' % msg, "%s and %s" % (rf.where, wf.where))
    if err:
        return bad(err)
    o = rpe.ho(rv)
    if o is None or not o.fields:
        raise Skip('result %s' % T.show(rv))
    S = sigma
    parts = 0
    for k, v in o.fields.items():
        lst = rpe.ho(v)
        if lst is not None and lst.kind == 'list':
            for i, x in enumerate(lst.items):
                x = x[1] if isinstance(x, tuple) and x[0] == 'one' else x
                x = strip_coerce(T.subst(x, S))
                if T.has_unk(x):
                    raise Skip(k)
                parts += 1
                if x != ('idx', ('attr', V, k), C(i)):
                    return bad('%s[%d] is read from %s' % (k, i, T.show(x)))
            continue
        x = strip_coerce(T.subst(v, S))
        if T.has_unk(x):
            raise Skip(k)
        parts += 1
        if x != ('attr', V, k):
            return bad('%s is read from what was written for %s' % (k, T.show(x)))
    if parts < 6:
        raise Skip('only %d parts traced' % parts)
    rep.count('codecs proved inverse')


# decoder -> encoders that undo it
DATES = {'fromtimestamp': 'local', 'utcfromtimestamp': 'utc'}


def dates(prog, ctx, rep):
    (rf, rpe, rv), (wf, wpe, wv) = pair(prog, ctx, 'datetime', None, helpers(ctx) - PRIMS)
    r, w = flat(rpe.out), flat(wpe.out)

    def bad(msg):
        rep.finding('datetime/%s' % msg, 'read_datetime and write_datetime disagree: %s' % msg, "%s and %s" % (rf.where, wf.where))
    if len(r) != 1 or len(w) != 1:
        raise Skip('more than one part')
    if r[0].kind != w[0].kind:
        return bad('a time is written as %s but read as %s' % (w[0].kind, r[0].kind))
    zr = zone(T.show(rv))
    zw = zone(T.show(w[0].val))
    if zr is None or zw is None:
        raise Skip('%s / %s' % (T.show(rv), T.show(w[0].val)))
    if zr != zw:
        return bad('times are read as %s time but written as %s time' % (zr, zw))
    if not any(x == ('wire', r[0].id) for x in T.walk(rv)):
        raise Skip('source of the time')
    for x in T.walk(rv):
        if x[0] in ('op', 'sum') or (x[0] == 'call' and x[1] not in ('fromtimestamp', 'utcfromtimestamp', 'int', 'float')):
            raise Skip('arithmetic on the time')
    rep.count('codecs proved inverse')


def zone(s):
    if 'utcfromtimestamp' in s or 'timegm' in s or 'utctimetuple' in s:
        if 'mktime' in s:
            return None
        return 'universal'
    if 'tz' in s:
        return None
    if 'datetime(0x7b2, 1, 1' in s and 'fromtimestamp' not in s and 'mktime' not in s and '.timestamp' not in s:
        # counted from the start of 1970 without any zone
        return 'universal'
    if 'fromtimestamp' in s or 'mktime' in s or '.timestamp' in s:
        return 'local'
    return None


def exp10(prog, ctx, rep):
    (rf, rpe, rv), (wf, wpe, wv) = pair(prog, ctx, 'exp10_encoded_float', None, helpers(ctx) - PRIMS)

    def bad(msg):
        rep.finding('exp10/%s' % msg, 'read_exp10_encoded_float and write_exp10_encoded_float disagree: %s' % msg, "%s and %s" % (rf.where, wf.where))
    r = flat(rpe.out)
    kinds = [n.kind for n in r]

    def alts(l):
        outs = [[]]
        for n in l:
            if isinstance(n, Alt):
                outs = [o + x for o in outs for x in alts(n.a) + alts(n.b)]
            elif isinstance(n, P):
                outs = [o + [n] for o in outs]
            elif isinstance(n, Raise):
                outs = []
            else:
                raise Skip('%s' % n)
        return outs
    for seq in alts(wpe.out):
        if [n.kind for n in seq] != kinds:
            return bad('%s is written, %s is read' % ([n.kind for n in seq], kinds))
    if len(r) != 2:
        raise Skip('not two parts')
    m, e = ('wire', r[0].id), ('wire', r[1].id)
    s = strip_coerce(rv)
    ok = False
    if s[0] == 'op' and s[1] == '*':
        for a, b in ((s[2], s[3]), (s[3], s[2])):
            if strip_coerce(a) == m and b[0] == 'op' and b[1] == '**' and is_c(b[2]) and b[3] == e:
                ok = True
                if cv(b[2]) != 10:
                    return bad('the exponent is applied to %s' % cv(b[2]))
            if strip_coerce(a) == e and b[0] == 'op' and b[1] == '**' and b[3] == m:
                return bad('mantissa and exponent are exchanged')
    if not ok:
        raise Skip('result %s' % T.show(rv))
    rep.count('codecs proved inverse')


def boolean(prog, ctx, rep):
    (rf, rpe, rv), (wf, wpe, wv) = pair(prog, ctx, 'bool', None, helpers(ctx) - (PRIMS - {'read_bool', 'write_bool', 'read_u8', 'write_u8'}))

    def bad(msg):
        rep.finding('bool/%s' % msg, 'read_bool and write_bool disagree: %s' % msg, "%s and %s" % (rf.where, wf.where))
    vals = {}

    def w(l, c):
        for n in l:
            if isinstance(n, Alt):
                if n.cond == ('truthy', V) or n.cond == V:
                    w(n.a, True)
                    w(n.b, False)
                elif n.cond[0] == 'not' and n.cond[1] in (('truthy', V), V):
                    w(n.a, False)
                    w(n.b, True)
                else:
                    raise Skip('condition %s' % T.show(n.cond))
            elif isinstance(n, P) and n.kind == 'u8' and is_c(n.val) and c is not None:
                vals[c] = cv(n.val)
            elif isinstance(n, P) and n.kind == 'u8' and n.val[0] == 'ite' and n.val[1] in (('truthy', V), V) and is_c(n.val[2]) and is_c(n.val[3]):
                vals[True], vals[False] = cv(n.val[2]), cv(n.val[3])
            else:
                raise Skip('%s' % n)
    w(wpe.out, None)
    if set(vals) != {True, False}:
        raise Skip('not both values')
    x = rv
    if x[0] == 'boolv':
        x = x[1]
    if x[0] == 'cmp' and x[1] in ('==', '!=') and is_c(x[3]) and strip_coerce(x[2])[0] in ('wire', 'unpackitem'):
        for t in (True, False):
            got = (vals[t] == cv(x[3])) == (x[1] == '==')
            if got != t:
                return bad('%s is written as %d, which is read as %s' % (t, vals[t], got))
    elif x[0] == 'truthy' and x[1][0] in ('wire', 'unpackitem'):
        for t in (True, False):
            if bool(vals[t]) != t:
                return bad('%s is written as %d' % (t, vals[t]))
    else:
        raise Skip('result %s' % T.show(rv))
    rep.count('codecs proved inverse')


def string(prog, ctx, rep, enc):
    (rf, rpe, rv), (wf, wpe, wv) = pair(prog, ctx, 'string', None, helpers(ctx) - PRIMS, extra=[C(enc)])

    def bad(msg):
        rep.finding('string/%s/%s' % (enc, msg), 'read_string and write_string disagree (%s): %s' % (enc, msg), "%s and %s" % (rf.where, wf.where))
    # --- reader: length, then that many bytes, unless the length is special
    if not rpe.out or not isinstance(rpe.out[0], P):
        raise Skip('reader')
    n0 = rpe.out[0]
    L = ('wire', n0.id)
    raws = []

    def find(l, conds):
        for n in l:
            if isinstance(n, P):
                if n is not n0:
                    raws.append((n, conds))
            elif isinstance(n, Alt):
                find(n.a, conds + [(n.cond, True)])
                find(n.b, conds + [(n.cond, False)])
            elif isinstance(n, Raise):
                continue
            else:
                raise Skip('%s' % n)
    find(rpe.out, [])
    if len(raws) != 1 or raws[0][0].kind != 'raw' or raws[0][0].size != L:
        if len(raws) == 1 and raws[0][0].kind == 'raw' and raws[0][0].size is not None and not T.has_unk(raws[0][0].size) \
                and raws[0][0].size[0] in ('sum', 'op') and L in T.walk(raws[0][0].size):
            return bad('the reader takes %s bytes of a string announced with that length' % T.show(raws[0][0].size))
        raise Skip('reader body')
    body, conds = raws[0]
    decs = [x for x in T.walk(rv) if x[0] == 'call' and x[1] == 'decode']
    if not decs:
        raise Skip('decoding')
    # the special lengths: lengths for which the body is not read
    special = []
    for c, t in conds:
        if c[0] == 'cmp' and c[2] == L and is_c(c[3]):
            special.append((c[1], cv(c[3]), t))
        elif c == ('truthy', L):
            special.append(('!=', 0, t))
        else:
            raise Skip('condition %s' % T.show(c))

    def body_read(n):
        for op, k, t in special:
            r = {'==': n == k, '!=': n != k, '<': n < k, '<=': n <= k, '>': n > k, '>=': n >= k}[op]
            if r != t:
                return False
        return True
    # --- writer
    seqs = []

    def alts(l, conds):
        outs = [([], conds, False)]
        for n in l:
            new = []
            for o, c, dead in outs:
                if dead:
                    new.append((o, c, dead))
                    continue
                if isinstance(n, Alt):
                    for x in alts(n.a, c + [(n.cond, True)]) + alts(n.b, c + [(n.cond, False)]):
                        new.append((o + x[0], x[1], x[2]))
                elif isinstance(n, P):
                    new.append((o + [n], c, False))
                elif isinstance(n, Raise):
                    new.append((o, c, True))
                else:
                    raise Skip('%s' % n)
            outs = new
        return outs
    seqs = [(o, c) for o, c, dead in alts(wpe.out, []) if not dead]
    full = [(o, c) for o, c in seqs if len(o) > 1]
    for o, c in seqs:
        if not o or o[0].kind != n0.kind:
            return bad('the length is written as %s and read as %s' % (o[0].kind if o else 'nothing', n0.kind))
        if len(o) == 1 and not (is_c(o[0].val) and cv(o[0].val) == 0):
            if is_c(o[0].val) and not body_read(cv(o[0].val)):
                continue
            raise Skip('short form')
    if not full:
        raise Skip('writer body')
    for o, c in full:
        if any(n.kind != 'raw' for n in o[1:]):
            raise Skip('writer body')
        def known(t):
            for cc, tr in c:
                for a, b in facts_of(cc, tr):
                    t = replace(t, a, b)
            return T.subst(t, {})
        for n in o:
            n.cur = known(n.val)
        lens = None
        for n in o[1:]:
            l = T.len_(n.cur)
            lens = l if lens is None else T.add(lens, l)
        parts = []
        for n in o[1:]:
            parts += cats(n.cur)
        if T.has_unk(o[0].cur) or T.has_unk(lens):
            raise Skip('length')
        if o[0].cur != lens:
            return bad('the announced length is %s but %s is written' % (T.show(o[0].cur), T.show(lens)))
        encs = [p for p in parts if p[0] == 'call' and p[1] == 'encode']
        consts = [p for p in parts if is_c(p)]
        if len(encs) != 1 or len(encs) + len(consts) != len(parts):
            raise Skip('parts %s' % [T.show(p) for p in parts])
        if any(set(cv(p)) - {0} for p in consts):
            return bad('bytes other than padding are added to the text')
        if not all(x[3] == encs[0][3] for x in decs):
            return bad('the text is encoded as %s but decoded as %s' % (T.show(encs[0][3]), T.show(decs[0][3])))
        # padding added by the writer must be removed by the reader
        if consts and not any(x[0] == 'call' and x[1] in ('.strip', '.lstrip') for x in T.walk(rv)) and not any(x[0] == 'slice' for x in T.walk(rv)):
            return bad('padding added by the writer is not removed by the reader')
        # lengths whose meaning is special must be refused by the writer
        bound = None
        for cc, t in c + [(x, True) for x in wpe.asserts]:
            cc = known(cc)
            off = T.add(lens, cc[2], -1) if cc[0] == 'cmp' else T.NONE
            if cc[0] == 'cmp' and is_c(off) and isinstance(cv(off), int) and is_c(cc[3]):
                k = cv(cc[3]) + cv(off)
                b = {('>=', False): k, ('<', True): k, ('>', False): k + 1, ('<=', True): k + 1, ('==', False): None}.get((cc[1], t))
                if b is not None:
                    bound = b if bound is None else min(bound, b)
        for n in range(65536 - 4, 65536):
            if not body_read(n) and (bound is None or n < bound):
                return bad('a text of %d bytes is written in full but read back as nothing' % n)
        if not body_read(1):
            return bad('a text of one byte is not read')
    rep.count('codecs proved inverse')


def cats(v):
    v = strip_coerce(v)
    if v[0] == 'cat':
        return cats(v[1]) + cats(v[2])
    return [v]
