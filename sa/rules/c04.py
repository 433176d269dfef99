"""C04: every primitive exists in both byte orders, reading is the inverse of writing in
each, and nothing else in the package fixes a byte order on its own."""
import ast
import struct
from ..pe import PE, P, STREAM, C, is_c, cv, STRUCT_KIND
from ..load import Func
from .. import flow, terms as T

KINDS = {'u16': 'H', 's16': 'h', 'u32': 'I', 's32': 'i', 'u64': 'Q', 's64': 'q', 'double': 'd', 'fourcc': '4s'}
BYTE = {'u8': 'B', 's8': 'b'}
ENDIAN = {'little': '<', 'big': '>'}


def check(prog, rep, tier):
    rep.rule("For each byte order the context's constructor is evaluated to the function each multi-byte primitive is bound to; "
             "that function must read (write) exactly the width, signedness and byte order its name and the selected order "
             "say, the set bound for one order must equal the set bound for the other, and any other order is refused. "
             "Elsewhere every pack/unpack format and every fixed-order helper is only reached under a test of the byte order.")
    ctx = prog.need_class('AVBIOContext')
    bound = {}
    for order in ENDIAN:
        bound[order] = table(prog, ctx, order, rep)
    if all(b is not None for b in bound.values()):
        for a, b in (('little', 'big'), ('big', 'little')):
            for name in sorted(set(bound[a]) - set(bound[b])):
                rep.finding('missing/%s/%s' % (b, name), 'AVBIOContext: %s is set up for %s endian files but not for %s endian files' % (name, a, b),
                            ctx.methods['__init__'].where)
    for order, tab in bound.items():
        if tab is None:
            rep.unclear('AVBIOContext(%r)' % order, 'constructor not understood')
            continue
        for k in KINDS:
            for d in ('read_', 'write_'):
                name = d + k
                rep.count('primitives checked')
                f = tab.get(name) or ctx.find_method(name)
                if f is None:
                    rep.finding('missing/%s/%s' % (order, name), 'AVBIOContext: no %s for %s endian files' % (name, order), ctx.where)
                elif isinstance(f, Func):
                    primitive(prog, ctx, rep, order, d, k, f, KINDS[k])
                else:
                    rep.unclear(name, 'bound to %s' % T.show(f))
    for k in BYTE:
        for d in ('read_', 'write_'):
            rep.count('primitives checked')
            f = ctx.find_method(d + k)
            if not isinstance(f, Func):
                rep.finding('missing/%s' % (d + k), 'AVBIOContext: no %s%s' % (d, k), ctx.where)
            else:
                primitive(prog, ctx, rep, None, d, k, f, BYTE[k])
    refused(prog, ctx, rep)
    elsewhere(prog, ctx, rep)
    rep.need('primitives checked', 30)
    rep.need('functions searched for fixed byte orders', 100)


def table(prog, ctx, order, rep):
    init = ctx.methods.get('__init__')
    if init is None:
        return None
    pe = PE(prog, 'r', ctx, prims=False)
    st = pe.make_self(ctx)
    pe.run(init, st, [C(order)])
    out = {}
    for name, v in pe.heap[st[1]].fields.items():
        if not (name.startswith('read_') or name.startswith('write_')):
            continue
        f = v
        if v[0] == 'bm':
            f = ctx.find_method(v[2])
        elif v[0] == 'fn':
            f = v[1]
        elif v[0] in ('attr',) and v[1] == st:
            f = ctx.find_method(v[2])
        if v[0] == 'unk' or T.has_unk(v):
            return None
        out[name] = f if f is not None else v
    if not out:
        # selected some other way (methods that test the order)
        return {}
    return out


def runm(prog, ctx, f, mode, args, order=None):
    pe = PE(prog, mode, ctx, prims=False)
    pe.order = order
    st = ('ctx', 'self')
    if f.kind == 'class':
        st = None
    v = pe.run(f, st if f.kind == 'method' else None, args)
    return pe, v


def primitive(prog, ctx, rep, order, d, kind, f, fmt):
    name = d + kind
    label = "%s of a %s endian file (%s)" % (name, order, f.name) if order else name
    want = ENDIAN.get(order, '')
    try:
        if d == 'read_':
            pe, v = runm(prog, ctx, f, 'r', [STREAM], order)
        else:
            pe, v = runm(prog, ctx, f, 'w', [STREAM, ('param', 'value')], order)
    except Exception as e:
        rep.unclear(label, type(e).__name__)
        return

    def bad(msg):
        rep.finding('%s/%s/%s' % (order or 'any', name, msg), '%s: %s' % (label, msg), f.where)
    if len(pe.out) != 1 or not isinstance(pe.out[0], P):
        rep.unclear(label, 'does not consist of one transfer')
        return
    p = pe.out[0]
    size = struct.calcsize(('<' if fmt != 'B' else '') + fmt)
    if d == 'read_':
        if p.kind == 'raw':
            if p.size is None or not is_c(p.size):
                rep.unclear(label, 'size not constant')
                return
            if kind == 'fourcc':
                if cv(p.size) != 4:
                    return bad('reads %s bytes instead of 4' % cv(p.size))
                rev = reversal(v, ('wire', p.id))
                if rev is None:
                    return rep.unclear(label, 'byte order of the result not traced')
                if rev != (order == 'little'):
                    return bad('the four character code is %sreversed' % ('' if rev else 'not '))
                rep.count('primitives decided')
                return
            x = v
            while x[0] == 'call' and x[1] in T.COERCE and len(x) == 3:
                x = x[2]
            if x[0] == 'unpackitem' and is_c(x[1]) and x[2] == ('wire', p.id):
                return fmt_check(rep, bad, label, cv(x[1]), fmt, want, cv(p.size), x[3])
            if x[0] == 'call' and x[1] in ('int_from_bytes', '.from_bytes'):
                return rep.unclear(label, 'int.from_bytes')
            return rep.unclear(label, 'result is %s' % T.show(v))
        if p.kind in STRUCT_NAMES:
            return kind_check(rep, bad, label, p, kind, order)
        return rep.unclear(label, 'reads %s' % p.kind)
    if kind == 'fourcc':
        return fourcc_write(prog, ctx, rep, bad, label, order, f, p)
    if p.kind in STRUCT_NAMES:
        if p.val is not None and p.val != ('param', 'value') and not T.has_unk(p.val):
            x = p.val
            while x[0] == 'call' and x[1] in T.COERCE and len(x) == 3:
                x = x[2]
            if x != ('param', 'value'):
                if T.walk(x) and ('param', 'value') not in list(T.walk(x)):
                    return bad('does not write the value it is given')
                return rep.unclear(label, 'writes %s' % T.show(p.val))
        return kind_check(rep, bad, label, p, kind, order)
    return rep.unclear(label, 'writes %s' % p.kind)


STRUCT_NAMES = {k for k, _ in STRUCT_KIND.values()}


def kind_check(rep, bad, label, p, kind, order):
    if p.kind != kind:
        return bad('transfers a %s' % p.kind)
    if order and p.endian is not None and p.endian != {'little': 'le', 'big': 'be'}[order]:
        return bad('uses %s byte order' % {'le': 'little endian', 'be': 'big endian', 'native': "the machine's"}[p.endian])
    rep.count('primitives decided')


def fmt_check(rep, bad, label, f, fmt, want, size, index):
    if isinstance(f, bytes):
        f = f.decode('latin1')
    lead = f[0] if f[:1] in '<>!=@' else ''
    body = f[len(lead):]
    lead = {'!': '>'}.get(lead, lead)
    try:
        need = struct.calcsize((lead or '=') + body)
    except struct.error:
        return rep.unclear(label, 'format %r' % f)
    if need != size:
        return bad('reads %d bytes for the format %s' % (size, f))
    if body in ('L', 'l') and lead in ('<', '>'):
        body = {'L': 'I', 'l': 'i'}[body]
    if body != fmt:
        return bad('is decoded as %r' % f)
    if want and lead != want:
        return bad('is decoded as %r' % f)
    rep.count('primitives decided')


def reversal(v, of):
    """True: v is `of` reversed; False: v is `of`; None: unknown"""
    while v[0] == 'call' and v[1] in ('bytes', 'bytearray', 'copy') and len(v) == 3:
        v = v[2]
    if v == of:
        return False
    if v[0] == 'call' and v[1] in ('revbytes', 'reversed') and len(v) == 3:
        r = reversal(v[2], of)
        return None if r is None else not r
    return None


def reverses(func):
    """the helper returns its argument reversed (True/None)"""
    a = [x.arg for x in func.node.args.args]
    if func.kind == 'method':
        a = a[1:]
    if len(a) != 1:
        return None
    s = a[0]
    for n in ast.walk(func.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == s and isinstance(n.slice, ast.Slice) \
                and n.slice.lower is None and n.slice.upper is None and n.slice.step is not None and ast.dump(n.slice.step) == ast.dump(ast.parse('-1', mode='eval').body):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'reversed':
            return True
    # out[size - 1 - i] = s[i]
    for n in ast.walk(func.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.value, ast.Subscript):
            t, v = n.targets[0], n.value
            if isinstance(v.value, ast.Name) and v.value.id == s:
                def sign(e):
                    names = {}

                    def w(x, sg):
                        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
                            w(x.left, sg)
                            w(x.right, sg if isinstance(x.op, ast.Add) else -sg)
                        elif isinstance(x, ast.Name):
                            names[x.id] = names.get(x.id, 0) + sg
                    w(e, 1)
                    return names
                a_, b_ = sign(t.slice), sign(v.slice)
                for k in set(a_) & set(b_):
                    if a_[k] * b_[k] == -1:
                        return True
                    if a_[k] * b_[k] == 1 and len(a_) == len(b_) == 1:
                        return False
    return None


def fourcc_write(prog, ctx, rep, bad, label, order, f, p):
    # which argument expression reaches the stream write
    rev = None
    if p.val is not None:
        rev = reversal(p.val, ('param', 'value'))
    if rev is None:
        fl = []

        def step(s, ev):
            if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] == 'write' and ev.args:
                fl.append(ev.args[0])
            return None
        flow.Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.callee is not None and reverses(ev.callee) is not None).run(f, {0}, cls=ctx)
        for d in fl:
            n = 0
            while True:
                if d[0] == 'local' and len(d) > 2:
                    d = d[2]
                    continue
                if d[0] == 'call' and d[1] == ('builtin', 'bytes') and d[2]:
                    d = d[2][0]
                    continue
                if d[0] == 'call' and len(d[2]) == 1:
                    c = flow.Flow(prog, lambda s, e: None).callee(flow.Frame(f, f.module, ctx, {}), d[1])[0]
                    if isinstance(c, Func) and reverses(c) is not None:
                        n += 1 if reverses(c) else 0
                        d = d[2][0]
                        continue
                break
            if d[0] == 'param':
                rev = bool(n % 2)
    if rev is None:
        return rep.unclear(label, 'byte order of what is written not traced')
    if rev != (order == 'little'):
        return bad('the four character code is %sreversed' % ('' if rev else 'not '))
    rep.count('primitives decided')


def refused(prog, ctx, rep):
    """the constructor raises for any other order"""
    init = ctx.methods.get('__init__')
    if init is None:
        return
    ends = []

    def step(s, ev):
        if ev.kind == 'test' and ev.target[0] == 'cmp':
            op, a, b = ev.target[1:]
            vals = [x[1] for x in (a, b) if x[0] == 'const']
            if len(vals) == 2 and op in ('Eq', 'NotEq'):
                t = (vals[0] == vals[1]) == (op == 'Eq')
                return [] if t != ev.truth else None
            if b[0] == 'seq' and a[0] == 'const' and op in ('In', 'NotIn'):
                t = (any(x == a for x in b[1:])) == (op == 'In')
                return [] if t != ev.truth else None
        return None
    a = [x.arg for x in init.node.args.args][1:]
    if not a:
        return
    o = flow.Flow(prog, step).run(init, {0}, cls=ctx, env={a[0]: ('const', '\0other')})
    rep.count('constructor exits for an unknown order', len(o.n | o.ret))
    if o.n or o.ret:
        # an order that is looked up in a table raises by itself
        if any(isinstance(n, ast.Subscript) or isinstance(n, ast.Attribute) and n.attr == 'get' for n in ast.walk(init.node)):
            rep.unclear('AVBIOContext', 'refusal of unknown orders')
            return
        rep.finding('order-not-refused', 'AVBIOContext can be set up with a byte order that is neither little nor big', init.where)


FIXED = tuple(k + e for k in ('u16', 's16', 'u32', 's32', 'u64', 's64') for e in ('le', 'be')) + ('double_le', 'double_be', 'fourcc_le', 'fourcc_be')
# AVBChunk.hex dumps a chunk for an error message; it is not part of reading or writing
EXCEPT = {'avb.file.AVBChunk.hex': 'diagnostic dump'}
# copies of a media file's own header, whose byte order is that of the media format
EMBEDDED = {'WaveDescriptor': 'little', 'AIFCDescriptor': 'big'}


def embedded(prog, f, order, depth=0):
    if f.cls is not None and EMBEDDED.get(f.cls.name) == order:
        return True
    if f.name in ('read', 'write') or depth > 3:
        return False
    callers = []
    for g in prog.functions():
        if g.node is not f.node and any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, 'id', None) == f.name or getattr(n, 'attr', None) == f.name)
                                        for n in ast.walk(g.node)):
            callers.append(g)
    return bool(callers) and all(embedded(prog, g, order, depth + 1) for g in callers)


def elsewhere(prog, ctx, rep):
    """fixed byte orders reached without a test of the byte order"""
    for m in prog.all_modules():
        for f in flow_functions(m):
            rep.count('functions searched for fixed byte orders')
            if f.cls is ctx or f.qual in EXCEPT:
                continue
            if not any(isinstance(n, (ast.Attribute, ast.Name)) and (getattr(n, 'attr', None) or getattr(n, 'id', '')) in
                       ('pack', 'unpack', 'unpack_from', 'pack_into', 'Struct', 'from_bytes', 'to_bytes', 'calcsize', 'iter_unpack')
                       or isinstance(n, ast.Attribute) and n.attr.split('_', 1)[-1] in FIXED
                       for n in ast.walk(f.node)):
                continue
            if not touches_stream(f):
                continue
            scan(prog, rep, f)


def touches_stream(f):
    """the function handles file contents (mob ids and similar in-memory layouts keep
    a fixed order of their own)"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ('read', 'write', 'ictx', 'octx', 'readinto', 'byte_order', 'getvalue'):
            return True
        if isinstance(n, ast.arg) and n.arg in ('f', 'fp', 'stream', 'data', 'buf', 'ctx'):
            return True
    return False


def order_test(t):
    """(order the test is about, positive) or None"""
    neg = False
    while t[0] == 'not':
        neg = not neg
        t = t[1]
    if t[0] == 'cmp' and t[1] in ('Eq', 'NotEq', 'Is', 'IsNot'):
        a, b = t[2], t[3]
        if a[0] == 'const':
            a, b = b, a
        if b[0] == 'const' and b[1] in ENDIAN and 'order' in flow.show(a):
            pos = t[1] in ('Eq', 'Is')
            return b[1], pos != neg
        # bytes of the order marker
        if b[0] == 'glob' and b[1] in ('LE_BYTE_ORDER', 'BE_BYTE_ORDER'):
            pos = t[1] == 'Eq'
            return ('little' if b[1][0] == 'L' else 'big'), pos != neg
    return None


def scan(prog, rep, f):
    hits = []

    def step(s, ev):
        if ev.kind == 'test':
            ot = order_test(ev.target)
            if ot:
                want = ot[0] if ev.truth == ot[1] else ({'little': 'big', 'big': 'little'}[ot[0]])
                if s in ENDIAN and s != want:
                    return []
                return [want]
        if ev.kind == 'call':
            d = ev.target
            name = d[1].split('.')[-1] if d[0] == 'ext' else (d[2] if d[0] == 'attr' else '')
            e = None
            if d[0] == 'ext' and d[1].startswith('struct.') and ev.args and ev.args[0][0] == 'const':
                x = ev.args[0][1]
                x = x.decode('latin1') if isinstance(x, bytes) else x
                if isinstance(x, str) and x:
                    if x[0] in '<>!':
                        e = 'little' if x[0] == '<' else 'big'
                    elif struct_multibyte(x):
                        e = 'native'
            elif name in ('from_bytes', 'to_bytes'):
                for a in list(ev.args) + list(ev.kw.values()):
                    if a[0] == 'const' and a[1] in ENDIAN:
                        e = a[1]
            elif d[0] == 'attr' and d[2].split('_', 1)[-1] in FIXED and d[2].split('_')[0] in ('read', 'write'):
                e = 'little' if d[2].rstrip().endswith('le') else 'big'
            if e:
                rep.count('fixed byte orders examined')
                if s != e and not embedded(prog, f, e):
                    hits.append((ev, e, s))
        return None
    try:
        flow.Flow(prog, step, opaque=lambda ev: True).run(f, {'?'})
    except Exception as ex:
        rep.unclear(f.qual, type(ex).__name__)
        return
    for ev, e, s in hits:
        rep.finding('fixed-order/%s/%s' % (f.qual, flow.show(ev.target)),
                    '%s: %s is %s endian although the file%s' % (f.qual, flow.show(ev.target), e,
                     ' is %s endian here' % s if s in ENDIAN else "'s byte order was not asked for"), ev.where)


def struct_multibyte(x):
    return any(c in 'hHiIlLqQdfnN' for c in x)


def flow_functions(m):
    from ..load import module_functions
    return module_functions(m)
