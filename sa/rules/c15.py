"""C15: the header and the record framing that saving writes are what opening reads."""
import ast
from ..load import Func, AnalysisBroken
from ..flow import Flow, show
from ..loading import strip, contains
from ..pe import PE, P, Loop, Alt, Raise, Opaque, STREAM, WIDTHS
from ..terms import C, is_c, cv
from .. import terms as T
from ..wire import Binds


def check(prog, rep, tier):
    rep.rule("The header fields written and read are extracted for each byte order and aligned one by one: width, constant, and the property of the file each is taken from and goes back to; the two reserved numbers are the object count and the top object number. "
             "The byte order mark the writer puts first makes the reader choose the same order, any other start is an error. "
             "Each record is framed as identifier, length of the data, data, which the table scan, the chunk reader and the object reader undo the same way.")
    rep.assume("The version text is stored in a fixed field of 30 bytes padded with blanks, the save time in whole seconds; the primitives are decided by C04 and C05.")
    fc = prog.need_class('AVBFile')
    for order in ('little', 'big'):
        header(prog, rep, fc, order)
    marks(prog, rep, fc)
    framing(prog, rep, fc)
    if not rep.undecided:
        rep.need('header fields paired', 20)
        rep.need('byte order marks checked', 2)
        rep.need('framing steps checked', 6)


def run(prog, fc, name, mode, order):
    f = fc.find_method(name)
    if not isinstance(f, Func):
        return None
    pe = PE(prog, mode, fc, types={})
    pe.order = order
    st = pe.make_self(fc)
    o = pe.heap[st[1]]
    o.fields['octx'] = ('ctx', 'octx')
    o.fields['ictx'] = ('ctx', 'ictx')
    o.fields['f'] = STREAM
    pe.root_self = st
    pe.self_id = st[1]
    pe.result = pe.run(f, st, [STREAM] if mode == 'w' else [C(False)])
    pe.obj = pe.heap[st[1]]
    return pe


def width(p):
    if p.kind == 'raw':
        return cv(p.size) if p.size is not None and is_c(p.size) else None
    return WIDTHS.get(p.kind)


def flat(nodes, stop):
    out = []
    for n in nodes:
        if isinstance(n, stop):
            break
        out.append(n)
    return out


def header(prog, rep, fc, order):
    where = fc.where
    try:
        w = run(prog, fc, 'write_header', 'w', order)
        r = run(prog, fc, 'read_header', 'r', order)
    except Exception as e:
        rep.unclear('AVBFile header (%s)' % order, '%s: %s' % (type(e).__name__, e))
        return
    if w is None or r is None:
        rep.unclear('AVBFile', 'header functions not found')
        return
    W = w.out
    R = flat(r.out, Loop)
    table = [n for n in r.out if isinstance(n, Loop)][:1]
    binds = {}
    for k, v in r.obj.fields.items():
        if v[0] == 'wire':
            binds.setdefault(v[1], []).append(k)
    count_wire = None
    if table:
        c = [x for x in T.walk(table[0].count) if x[0] == 'wire']
        if len(c) == 1:
            count_wire = c[0][1]
            binds.setdefault(count_wire, []).append('#count')
    mark = None
    if isinstance(w.result, tuple) and w.result[0] == 'call' and len(w.result) == 3 and w.result[1] == 'tell':
        o, pos = w.tells[cv(w.result[2])]
        if o is W or True:
            mark = pos
    i = j = 0

    def at(n):
        return "%s:%s" % (n.file or 'src/avb/file.py', n.line)
    while i < len(R):
        a = R[i]
        if isinstance(a, (Raise,)):
            i += 1
            continue
        if isinstance(a, (Alt, Opaque)) or not isinstance(a, P):
            rep.unclear('header reader (%s)' % order, repr(a)[:80])
            return
        if j >= len(W):
            rep.finding('header/%s/short' % order, 'opening reads a %s that the header written does not have' % a.kind, at(a))
            return
        b = W[j]
        if not isinstance(b, P):
            rep.unclear('header writer (%s)' % order, repr(b)[:80])
            return
        rep.count('header fields paired')
        if a.kind.startswith('string') and b.kind == 'u16' and b.val is not None:
            n = fixed_string(rep, order, W, j, a, binds)
            if n is None:
                return
            i += 1
            j = n
            continue
        ka, kb = a.kind, b.kind
        if ka != kb:
            wa, wb = width(a), width(b)
            if ka == 'raw' and a.id not in binds and a.const is None and wa == wb and wa is not None:
                i += 1
                j += 1
                continue
            if wa is not None and wb is not None and wa == wb and a.const is None and a.id not in binds:
                i += 1
                j += 1
                continue
            rep.finding('header/%s/kind%d' % (order, i), 'header field %d is written as %s but read as %s' % (i, kb, ka), at(b))
            return
        if ka == 'raw':
            wa, wb = width(a), width(b)
            if wa is None or wb is None:
                rep.unclear('header (%s)' % order, 'raw field of unknown size')
                return
            if wa != wb:
                rep.finding('header/%s/size%d' % (order, i), 'header field %d is written with %d bytes but %d are read' % (i, wb, wa), at(b))
                return
        # constants
        want = [a.const] if a.const is not None else list(a.allowed or [])
        for c in r.asserts:
            if c[0] == 'cmp' and c[1] == 'in' and c[2] == ('wire', a.id) and is_c(c[3]):
                want = [C(x) for x in cv(c[3])]
        if want:
            if b.val is None or not is_c(b.val):
                if b.val is not None and b.val[0] != 'unk':
                    rep.finding('header/%s/const%d' % (order, i), 'opening insists on %s but the header gets %s' % (', '.join(T.show(x) for x in want), T.show(b.val)), at(b))
            elif b.val not in want:
                rep.finding('header/%s/const%d' % (order, i), 'opening insists on %s but the header gets %s' % (', '.join(T.show(x) for x in want), T.show(b.val)), at(b))
        # properties
        src = set(x[2] for x in T.walk(b.val) if x[0] == 'attr' and x[1] in (('self',), ('obj', w.self_id))) if b.val is not None else set()
        dst = set(binds.get(a.id, []))
        if mark is not None and j in (mark, mark + 1):
            src = {'#count'} if j == mark else {'root_index'}
        elif '#count' in dst or 'root_index' in dst:
            rep.finding('header/%s/reserved%d' % (order, i), 'opening takes the %s from header field %d, which is not where a save stores it' % ('object count' if '#count' in dst else 'top object number', i), at(b))
            i += 1
            j += 1
            continue
        if dst and not dst & src:
            rep.finding('header/%s/bind%d' % (order, i), 'opening takes %s from header field %d, into which %s is written' % (
                ', '.join(sorted(dst)), i, 'the reserved count' if mark is not None and j in (mark, mark + 1) else T.show(b.val) if b.val is not None else 'nothing'), at(b))
        if ka == 'datetime' and b.val is not None and not dst and src:
            rep.finding('header/%s/lost%d' % (order, i), '%s is written but opening does not take it back' % ', '.join(sorted(src)), at(a))
        i += 1
        j += 1
    rest = [n for n in W[j:] if not isinstance(n, Raise)]
    if rest:
        if isinstance(rest[0], Opaque):
            rep.unclear('header writer (%s)' % order, rest[0].reason)
        else:
            rep.finding('header/%s/rest' % order, 'the header gets a %s after the last field that opening reads' % (rest[0].kind if isinstance(rest[0], P) else 'field'), at(rest[0]))
    if mark is None:
        rep.unclear('header writer (%s)' % order, 'position of the object count not visible')
    if count_wire is None:
        rep.unclear('header reader (%s)' % order, 'the object count is not visible')
    for need in ('creator_version', 'last_save', 'root_index'):
        v = r.obj.fields.get(need)
        if v is None:
            rep.finding('header/%s/unset-%s' % (order, need), 'opening does not set %s' % need, where)
        elif v[0] != 'wire':
            ws = [x for x in T.walk(v) if x[0] == 'wire']
            if not ws:
                rep.finding('header/%s/not-read-%s' % (order, need), 'opening sets %s to %s instead of what the header holds' % (need, T.show(v)), where)


def fixed_string(rep, order, W, j, a, binds):
    """a string written as its length, bytes and padding; index after it"""
    n = W[j].val
    if not is_c(n):
        t = T.strip_len(n) if hasattr(T, 'strip_len') else None
        # length of exactly the bytes that follow
        if j + 1 < len(W) and isinstance(W[j + 1], P) and W[j + 1].kind == 'raw' and W[j + 1].size == n:
            return j + 2
        rep.unclear('header writer (%s)' % order, 'length of the string not understood')
        return None
    n = cv(n)
    got = C(0)
    bound = 0
    k = j + 1
    src = set()
    enc = None
    line = "%s:%s" % (W[j].file or 'src/avb/file.py', W[j].line)
    while k < len(W) and not (is_c(got) and cv(got) >= n):
        p = W[k]
        fill = None
        if isinstance(p, Loop) and p.body and all(isinstance(x, P) and width(x) for x in p.body) and p.count is not None:
            fill = T.mul(C(sum(width(x) for x in p.body)), p.count)
        elif not isinstance(p, P):
            rep.unclear('header writer (%s)' % order, repr(p)[:60])
            return None
        elif p.kind == 'raw' and p.val is not None and p.val[0] == 'op' and p.val[1] == '*':
            fill = length(p.val)
        if fill is not None and not is_c(fill):
            got = T.add(got, fill)
            if is_c(got) and (bound is None or bound > n):
                # a negative number of fill bytes is none
                rep.finding('header/%s/overflow' % order, 'a text longer than its field of %d bytes is written in full, which moves everything after it' % n, line)
                return None
            k += 1
            continue
        if isinstance(p, Loop):
            got = T.add(got, fill)
            k += 1
            continue
        if p.val is not None:
            src |= set(x[2] for x in T.walk(p.val) if x[0] == 'attr' and x[1][0] in ('self', 'obj'))
            for x in T.walk(p.val):
                if x[0] == 'call' and x[1] == 'encode' and len(x) > 3 and is_c(x[3]):
                    enc = cv(x[3])
        if p.size is not None and p.size[0] == 'padto':
            total = p.size[2] - sum_width(W, p.size[1], j) - (2 if p.size[1] <= j else 0)
            if total != n:
                rep.finding('header/%s/pad' % order, 'a text field of %d bytes is padded to %d' % (n, total), line)
                return None
            if bound is None:
                rep.finding('header/%s/overflow' % order, 'a text longer than its field of %d bytes is written in full, which moves everything after it' % n, line)
                return None
            if bound > n:
                rep.finding('header/%s/overflow' % order, 'up to %d bytes are written into a text field of %d' % (bound, n), line)
                return None
            got = C(n)
            k += 1
            break
        ln = length(p.val) if p.kind == 'raw' and p.val is not None else (C(width(p)) if width(p) is not None else None)
        if ln is None:
            rep.unclear('header writer (%s)' % order, 'bytes of the text field not understood')
            return None
        got = T.add(got, ln)
        m = most(p.val) if p.kind == 'raw' else width(p)
        bound = None if bound is None or m is None else bound + m
        k += 1
    if not is_c(got):
        if bound is None:
            rep.finding('header/%s/overflow' % order, 'the bytes written into a text field of %d bytes are not that many for every text' % n, line)
        else:
            rep.unclear('header writer (%s)' % order, 'bytes of the text field not understood')
        return None
    if cv(got) != n:
        rep.finding('header/%s/length' % order, 'a text field of %d bytes gets %d bytes' % (n, cv(got)), line)
        return None
    dst = set(binds.get(a.id, []))
    if dst and src and not dst & src:
        rep.finding('header/%s/bind-text' % order, 'opening takes %s from the text that is written from %s' % (', '.join(sorted(dst)), ', '.join(sorted(src))), line)
    renc = a.kind.split(':', 1)[1] if ':' in a.kind else None
    if enc and renc and enc.replace('-', '').replace('_', '').lower() not in (renc.replace('-', '').replace('_', '').lower(),) and not {enc, renc} <= {'macroman', 'mac_roman', 'mac-roman'}:
        rep.finding('header/%s/encoding' % order, 'a text is written in %s and read in %s' % (enc, renc), line)
    return k


def sum_width(W, a, b):
    s = 0
    for n in W[a:b]:
        s += width(n) or 0
    return s


def most(v):
    """upper bound of the length of a bytes term"""
    n = length(v)
    if n is not None and is_c(n):
        return cv(n)
    if v[0] == 'slice' and len(v) >= 4 and is_c(v[3]) and isinstance(cv(v[3]), int) and cv(v[3]) >= 0 and (is_c(v[2]) and not cv(v[2])):
        return cv(v[3])
    return None


def just(v):
    """(text, width) of x.ljust(n)"""
    if v[0] == 'call' and isinstance(v[1], str) and v[1].lstrip('.') in ('ljust', 'rjust', 'center') and len(v) > 3 and is_c(v[3]) and isinstance(cv(v[3]), int):
        return v[2], cv(v[3])
    return None


def length(v):
    """length of a bytes term, as a term"""
    if v is None:
        return None
    if is_c(v) and isinstance(cv(v), (bytes, bytearray)):
        return C(len(cv(v)))
    if just(v):
        x, w = just(v)
        m = most(x)
        return C(w) if m is not None and m <= w else ('len', v)
    if v[0] == 'op' and v[1] == '*':
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if is_c(x) and isinstance(cv(x), bytes):
                return T.mul(C(len(cv(x))), y)
    if v[0] == 'op' and v[1] == '+' or v[0] == 'cat':
        r = C(0)
        for x in v[2:] if v[0] == 'op' else v[1:]:
            ln = length(x)
            if ln is None:
                return None
            r = T.add(r, ln)
        return r
    if v[0] == 'slice' and len(v) >= 4 and is_c(v[3]) and is_c(v[2]) and not cv(v[2]) and just(v[1]):
        if isinstance(cv(v[3]), int) and 0 <= cv(v[3]) <= just(v[1])[1]:
            return C(cv(v[3]))
    if v[0] in ('slice', 'call', 'attr'):
        return ('len', v)
    return None


def marks(prog, rep, fc):
    """byte order mark -> byte order"""
    wanted = {}
    for order in ('little', 'big'):
        try:
            w = run(prog, fc, 'write_header', 'w', order)
        except Exception:
            continue
        if w and w.out and isinstance(w.out[0], P) and w.out[0].val is not None and is_c(w.out[0].val):
            wanted[order] = cv(w.out[0].val)
    if len(wanted) < 2:
        rep.unclear('write_header', 'byte order mark not visible')
        return
    f = fc.find_method('read_header')

    def const(d, mod):
        d = strip(d)
        if d[0] == 'const':
            return d[1]
        if d[0] == 'glob':
            try:
                from ..load import fold
                m = d[2]
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == d[1] for t in n.targets):
                        return fold(prog, m, n.value)
            except Exception:
                return None
        return None

    def mark(d):
        v = const(d, f.module)
        return v if isinstance(v, bytes) and len(v) == 2 else None

    def narrow(have, no, want, holds):
        """the possible marks once `mark in want` is known to hold or not"""
        if have is None:
            if holds:
                have = frozenset(want) - no
                return [(have, no)] if have else []
            return [(None, no | frozenset(want))]
        have = have & frozenset(want) if holds else have - frozenset(want)
        return [(have, no)] if have else []

    # state: (possible marks or None for any, marks ruled out, chosen order)
    def step(st, ev):
        have, no, chosen = st
        if ev.kind == 'test':
            s = strip(ev.target)
            if s[0] == 'cmp' and s[1] in ('Eq', 'NotEq'):
                for x, y in ((s[2], s[3]), (s[3], s[2])):
                    v = mark(y)
                    if v is not None and strip(x)[0] in ('call', 'local'):
                        return [(h, n, chosen) for h, n in narrow(have, no, {v}, (s[1] == 'Eq') == ev.truth)]
            if s[0] == 'cmp' and s[1] in ('In', 'NotIn') and strip(s[2])[0] in ('call', 'local'):
                y = strip(s[3])
                vs = [mark(e) for e in y[1:]] if y[0] == 'seq' else [None]
                if vs and all(vs):
                    return [(h, n, chosen) for h, n in narrow(have, no, set(vs), (s[1] == 'In') == ev.truth)]
        if ev.kind == 'call' and ev.target[0] == 'class' and ev.target[1] == 'AVBIOContext' and ev.args:
            v = const(ev.args[0], f.module)
            if v in ('little', 'big'):
                return [(have, no, v)]
            return [(have, no, '?')]
        return None
    o = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and (ev.callee is not None and ev.callee.name in ('read_object',) or ev.target[0] == 'class')).run(f, {(None, frozenset(), None)}, cls=fc)
    for have, no, chosen in o.n | o.ret:
        rep.count('byte order marks checked')
        if chosen == '?' or chosen is None:
            rep.unclear('read_header', 'byte order chosen is not visible')
            continue
        if have is None:
            rep.finding('mark/any', 'opening takes a file whose first two bytes are no byte order mark for a %s endian one' % chosen, f.where)
            continue
        for seen in sorted(have):
            if wanted[chosen] != seen:
                rep.finding('mark/%s' % chosen, 'the mark %r makes opening choose %s endian, but a %s endian save writes %r' % (seen, chosen, chosen, wanted[chosen]), f.where)


def framing(prog, rep, fc):
    # writing
    f = fc.find_method('write_object')
    if isinstance(f, Func):
        names = [a.arg for a in f.node.args.args]
        stream, obj = ('param', names[1]), ('param', names[2])

        def step(st, ev):
            t = ev.target
            if ev.kind != 'call' or t[0] != 'attr':
                return None
            if ev.args and strip(ev.args[0]) == stream and t[2].startswith('write_'):
                v = strip(ev.args[1]) if len(ev.args) > 1 else ('?',)
                if t[2] == 'write_fourcc':
                    if v == ('attr', obj, 'class_id'):
                        return [st + ('id',)]
                    return [st + ('?id',)]
                if t[2] in ('write_u32', 'write_s32'):
                    d = v[2][0] if v[0] == 'call' and v[1] == ('builtin', 'len') and v[2] else None
                    if d is not None and data(d):
                        return [st + ('len',)]
                    if v[0] == 'bin' or v[0] == 'const':
                        return [st + ('badlen',)]
                    return [st + ('?len',)]
                return [st + (t[2],)]
            if t[2] == 'write' and strip(t[1]) == stream:
                if ev.args and data(ev.args[0]):
                    return [st + ('data',)]
                return [st + ('?data',)]
            return None

        def data(d):
            s = strip(d)
            return s[0] == 'call' and s[1][0] == 'attr' and s[1][2] in ('getvalue', 'getbuffer')
        o = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.callee is not None and ev.callee.module.name.endswith('ioctx')).run(f, {()}, cls=fc)
        for st in o.n | o.ret:
            rep.count('framing steps checked', len(st))
            if any(x.startswith('?') for x in st):
                rep.unclear(f.qual, 'record framing not understood: %s' % (st,))
            elif st != ('id', 'len', 'data'):
                rep.finding('frame/write', 'a record is written as %s instead of identifier, length of the data, data' % (', '.join(st) or 'nothing'), f.where)
    # reading one record's head
    for order in ('little', 'big'):
        for name in ('read_chunk', 'read_object'):
            head(prog, rep, fc, name, order)
    table(prog, rep, fc)


def head(prog, rep, fc, name, order):
    f = fc.find_method(name)
    if not isinstance(f, Func):
        return
    pe = PE(prog, 'r', fc, types={})
    pe.order = order
    st = pe.make_self(fc)
    o = pe.heap[st[1]]
    o.fields['ictx'] = ('ctx', 'ictx')
    o.fields['f'] = STREAM
    pe.root_self = st
    pe.self_id = st[1]
    try:
        res = pe.run(f, st, [('param', 'index')])
    except Exception as e:
        rep.unclear('%s (%s)' % (name, order), '%s: %s' % (type(e).__name__, e))
        return

    def good_id(t):
        if t[0] == 'wire':
            n = pe.nodes.get(t[1])
            return n is not None and n.kind == 'fourcc'
        if order == 'little':
            return t[0] == 'call' and t[1] == 'revbytes' and t[2][0] == 'unpackitem' and t[2][3] == C(0) and fmt(t[2])
        return t[0] == 'unpackitem' and t[3] == C(0) and fmt(t)

    def fmt(t):
        return is_c(t[1]) and bytes(cv(t[1]) if isinstance(cv(t[1]), bytes) else cv(t[1]).encode()) == (b'<4sI' if order == 'little' else b'>4sI')

    def good_size(t):
        if t[0] == 'wire':
            n = pe.nodes.get(t[1])
            return n is not None and n.kind == 'u32'
        return t[0] == 'unpackitem' and t[3] == C(1) and fmt(t)

    ids, sizes = [], []
    # what the function makes of the head: every chunk object it builds
    for oid, h in pe.heap.items():
        if h.cls is not None and h.cls.name == 'AVBChunk' and h.sym is None:
            for k, l in (('class_id', ids), ('size', sizes)):
                v = h.fields.get(k)
                if v is not None:
                    l.append(v)

    def look(l):
        for n in l:
            if isinstance(n, Alt):
                look_term(n.cond)
                look(n.a)
                look(n.b)
            elif isinstance(n, Loop):
                look(n.body)

    def look_term(t):
        for x in T.walk(t):
            if x[0] == 'lookup' and len(x) > 2:
                ids.append(x[2])
    look(pe.out)
    for a in pe.asserts:
        look_term(a)
    done = False
    for l, good, what in ((ids, good_id, 'identifier'), (sizes, good_size, 'length')):
        for v in l:
            vs = leaves(v)
            for x in vs:
                ws = [y for y in T.walk(x) if y[0] == 'wire']
                if not ws:
                    continue
                rep.count('framing steps checked')
                done = True
                if good(x):
                    continue
                if x[0] in ('unpackitem', 'wire') or x[0] == 'call' and x[1] == 'revbytes':
                    rep.finding('frame/%s/%s/%s' % (name, order, what), '%s takes %s for the %s of a record of a %s endian file' % (f.qual, T.show(x), what, order), f.where)
                else:
                    rep.unclear('%s (%s)' % (name, order), 'how the %s is taken is not understood' % what)
    if not done:
        rep.unclear('%s (%s)' % (name, order), 'head of the record not visible')

    # where a chunk says that its data is: eight bytes behind the stored position
    def terms(d):
        d = strip(d)
        if d[0] == 'const' and isinstance(d[1], int):
            return d[1], []
        if d[0] == 'bin' and d[1] == 'Add':
            x, y = terms(d[2]), terms(d[3])
            return x[0] + y[0], x[1] + y[1]
        return 0, [d]

    def stored(d):
        return d[0] == 'idx' and strip(d[1])[0] == 'attr' and strip(d[1])[2] == 'object_positions'

    def place(st, ev):
        t = ev.target
        if ev.kind != 'call':
            return None
        if t[0] == 'class' and t[1] == 'AVBChunk' and len(ev.args) > 2:
            c, rest = terms(ev.args[2])
            if len(rest) == 1 and stored(rest[0]):
                at = c
            elif len(rest) == 1 and rest[0][0] == 'call' and rest[0][1][0] == 'attr' and rest[0][1][2] == 'tell' and isinstance(st, tuple) and len(st) == 2:
                at = st[1] + c
            else:
                rep.unclear('%s (%s)' % (name, order), 'where the data of a chunk is was not understood')
                return None
            rep.count('record positions checked')
            if at != 8:
                rep.finding('frame/%s/data' % name, '%s says that the data of a record begins %d bytes behind its position, saving puts it 8 behind' % (f.qual, at), ev.where)
            return None
        if t[0] == 'attr' and t[2] == 'seek' and ev.args:
            c, rest = terms(ev.args[0])
            return [('at', c)] if len(ev.args) == 1 and len(rest) == 1 and stored(rest[0]) else [None]
        if t[0] == 'attr' and st and len(st) > 1:
            if t[2] == 'read' and ev.args and ev.args[0][0] == 'const' and isinstance(ev.args[0][1], int) and st[1] < 64:
                return [('at', st[1] + ev.args[0][1])]
            if t[2] in ('read_fourcc', 'read_u32') and st[1] < 64:
                return [('at', st[1] + 4)]
            if t[2] == 'tell':
                return [('told', st[1])]
            if t[2].startswith('read'):
                return [None]
        return None
    if order == 'little':
        Flow(prog, place, opaque=lambda ev: ev.kind == 'call' and ev.callee is not None and (ev.callee.name in ('read', 'hex', 'setup_empty') or ev.callee.module.name.endswith('ioctx'))).run(f, {None}, cls=fc)

    # where it looks for the record
    def step(st, ev):
        if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] == 'seek' and ev.args and st == 0:
            rep.count('record positions checked')
            a = strip(ev.args[0])
            idx = ('param', [x.arg for x in f.node.args.args][1])
            if a[0] == 'idx' and a[1][0] == 'attr' and a[1][2] == 'object_positions':
                if a[2] != idx and strip(a[2]) != idx:
                    rep.finding('frame/%s/index' % name, '%s looks for the record at position number %s' % (f.qual, show(a[2])), ev.where)
                return [1]
            if a[0] == 'bin' and contains(a, lambda d: d[0] == 'attr' and d[2] == 'object_positions'):
                rep.finding('frame/%s/offset' % name, '%s looks for the record beside its stored position' % f.qual, ev.where)
                return [1]
            return [1]
        return None
    Flow(prog, step, opaque=lambda ev: True if ev.kind == 'call' and ev.callee is not None and ev.callee.name == 'read' else False).run(f, {0}, cls=fc)


def leaves(t):
    if t[0] in ('ite',):
        return leaves(t[2]) + leaves(t[3])
    if t[0] == 'either':
        return leaves(t[1]) + leaves(t[2])
    return [t]


def table(prog, rep, fc):
    """the scan that fills the position table: from one noted position to the next it passes
    the eight bytes of a head and as many as the head's second word says"""
    f = fc.find_method('read_header')
    checked = []

    def call_of(d, *names):
        d = strip(d)
        return d[0] == 'call' and d[1][0] == 'attr' and d[1][2] in names

    def terms(d):
        """(constant, other summands) of a sum"""
        d = strip(d)
        if d[0] == 'const' and isinstance(d[1], int):
            return d[1], []
        if d[0] == 'bin' and d[1] == 'Add':
            x, y = terms(d[2]), terms(d[3])
            return x[0] + y[0], x[1] + y[1]
        return 0, [d]

    def plus(p, c, n=0):
        return None if p is None or p[0] + c > 64 or p[1] + n > 4 else (p[0] + c, p[1] + n)

    def value(d, st):
        """what an expression made of positions and stored lengths is: (kind, constant, lengths)"""
        c, rest = terms(d)
        kind, at = 'num', (0, 0)
        n = 0
        for x in rest:
            if call_of(x, 'read_u32'):
                n += 1
            elif call_of(x, 'tell') and kind == 'num' and len(st[2]) == 1:
                kind, at = 'pos', st[2][0]
            else:
                return None
        return None if at is None else (kind, at[0] + c, at[1] + n)

    def context(d):
        return contains(d, lambda x: x[0] == 'attr' and x[2] in ('ictx', 'octx'))

    def note(st, ev, v, k, sure):
        w = value(v, st)
        if w is None or w[0] != 'pos':
            if sure:
                rep.unclear(f.qual, 'what is noted as the position of a record is not understood')
            return None
        pos, sizes, tells, noted = st
        b = w[1:]
        if noted:
            rep.count('framing steps checked')
            checked.append(1)
            if b[1] != 1:
                if b[1] == 0 or b[1] > 1:
                    rep.finding('table/skip', 'from one record to the next the scan passes %s instead of the stored length' % ('a fixed number of bytes' if not b[1] else 'several stored lengths'), ev.where)
            elif b[0] != 8:
                rep.finding('table/head', 'the scan takes %d bytes as the head of a record, saving writes 8' % b[0], ev.where)
            elif (4, 0) not in sizes and sizes:
                rep.finding('table/late', 'the position noted for a record is not its beginning', ev.where)
        if k is not None:
            k = strip(k)
            if k[0] == 'elem' and k[1][0] == 'call' and k[1][1] == ('builtin', 'range') and (len(k[1][2]) == 1 or k[1][2][0] == ('const', 0)):
                rep.finding('table/index', 'the first record is noted as number 0, but saving numbers records from 1', ev.where)
            elif k[0] == 'bin' and k[1] == 'Add' and contains(k, lambda d: d[0] == 'elem') and k[3] != ('const', 1) and k[2] != ('const', 1):
                rep.finding('table/index', 'a record is noted under number %s' % show(k), ev.where)

        def rel(p):
            return None if p is None or p[0] < b[0] - 64 or p[1] < b[1] else (p[0] - b[0], p[1] - b[1])
        return [(rel(pos), tuple(x for x in map(rel, sizes) if x is not None), tuple(x for x in map(rel, tells) if x is not None), True)]

    # state: position since the record last noted, where a word was read, what tell() gave, noted at all?
    def step(st, ev):
        pos, sizes, tells, noted = st
        t = ev.target
        if ev.kind == 'store' and t[0] == 'idx':
            o = strip(t[1])
            r = note(st, ev, ev.value, t[2] if o[0] == 'attr' and o[2] == 'object_positions' else None, o[0] == 'attr' and o[2] == 'object_positions')
            return r
        if ev.kind == 'call' and t[0] == 'attr':
            if t[2] == 'append' and len(ev.args) == 1:
                o = strip(t[1])
                return note(st, ev, ev.args[0], None, o[0] == 'attr' and o[2] == 'object_positions')
            if t[2] == 'tell':
                if not noted:
                    return [((0, 0), (), ((0, 0),), False)]
                return [(pos, sizes, (pos,), noted)]
            if t[2] == 'read' and len(ev.args) == 1 and not context(t[1]):
                w = value(ev.args[0], st)
                return [(plus(pos, w[1], w[2]) if w and w[0] == 'num' else None, sizes, tells, noted)]
            if t[2] == 'read_fourcc':
                return [(plus(pos, 4), sizes, tells, noted)]
            if t[2] == 'read_u32':
                return [(plus(pos, 4), tuple(sorted(set(sizes + ((pos,) if pos else ())))), tells, noted)]
            if t[2].startswith('read_') or t[2] == 'readinto':
                return [(None, sizes, tells, noted)]
            if t[2] == 'seek' and ev.args:
                w = value(ev.args[0], st)
                whence = strip(ev.args[1]) if len(ev.args) > 1 else ('const', 0)
                name = str(show(whence)).split('.')[-1]
                if name in ('SEEK_SET', 'SEEK_CUR', 'SEEK_END'):
                    whence = ('const', {'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}[name])
                if w is None or whence[0] != 'const':
                    return [(None, sizes, tells, noted)]
                if whence[1] == 1 and w[0] == 'num':
                    return [(plus(pos, w[1], w[2]), sizes, tells, noted)]
                if whence[1] == 0 and w[0] == 'pos':
                    return [(plus(w[1:], 0), sizes, tells, noted)]
                if w[0] == 'num' and w[2] or w[0] == 'pos' and whence[1]:
                    rep.count('framing steps checked')
                    rep.finding('table/whence', 'the scan does not go on from behind the head of the record', ev.where)
                return [(None, sizes, tells, noted)]
        return None
    Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and (ev.callee is not None and (ev.callee.name == 'read_object' or ev.callee.module.name.endswith('ioctx')))).run(f, {(None, (), (), False)}, cls=fc)
    if not checked:
        rep.unclear(f.qual, 'scan of the records not understood')
