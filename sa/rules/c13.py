"""C13: one live object per stored record; ids of new objects are unused."""
import ast
from ..load import Func, Class, dotted
from ..flow import Flow, show
from ..loading import loaders, strip, contains
from ..shapes import Inst, K, LambdaV, Env, Unknown
from .shapeutil import interp, empty_file


def check(prog, rep, tier):
    rep.rule("On every path of the record loader the cache is asked for the same record number before anything is decoded, with a test that tells an empty object from a missing one, what it has is returned, "
             "and what is decoded is stored in the cache and gets its id under that same number. The factory advances the id counter before using it, gives the object exactly that number and files it in the cache under it; "
             "after the header is read the counter is at least the number of stored records, and no other code sets it back. "
             "The walks over all records and over the objects of given kinds are interpreted on files of 0 to 4 records of two kinds: every record comes once, in order, and an object under the number of its own record.")
    rep.assume("WeakValueDictionary keeps an entry exactly as long as the object is alive; a modified object is held elsewhere (C10).")
    for L in loaders(prog):
        rep.count('record loaders')
        rep.count('loader exits', len(L.out.n | L.out.ret))
        rep.count('cache stores', L.counts['cache stores'])
        for key, text, where in L.findings:
            if key in ('no-lookup', 'lookup-truth', 'wrong-id', 'wrong-cache-key', 'hit-not-returned', 'loaded-not-returned'):
                rep.finding('%s/%s' % (L.func.name, key), '%s: %s' % (L.func.qual, text), where)
        for k, t in L.unclear:
            rep.unclear(L.func.qual, t)
        for reading, look, short, dec, left, cached, idset in L.out.n | L.out.ret:
            if dec in ('py', 'ext'):
                if cached is None:
                    rep.finding('%s/not-cached/%s' % (L.func.name, dec), '%s: a decoded object is returned without being put in the cache, so the next reference gets a second object' % L.func.qual, L.func.where)
                elif cached == 'odd':
                    rep.unclear(L.func.qual, 'key of the cache store not understood')
                if idset is None:
                    rep.finding('%s/no-id/%s' % (L.func.name, dec), '%s: a decoded object is returned without the number of its record' % L.func.qual, L.func.where)
                elif idset == 'odd':
                    rep.unclear(L.func.qual, 'id of the loaded object not understood')
    cache_kind(prog, rep)
    factory(prog, rep)
    counter(prog, rep)
    refs(prog, rep)
    walk(prog, rep)
    stored_chunk(prog, rep)
    rep.need('record loaders', 1)
    rep.need('creation paths checked', 1)
    rep.need('counter assignments checked', 1)


def cache_kind(prog, rep):
    """nothing but the loader and the factory changes the cache"""
    allowed = set(L.func.qual for L in loaders(prog)) | set(q for L in loaders(prog) for q in L.inlined)
    fac = prog.need_class('AVBFactory')
    for f in prog.functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and attr(t.value) == 'object_cache':
                        rep.finding('cache-drop/%s' % f.qual, '%s removes live objects from the cache, so the next reference gets a second object' % f.qual, '%s:%d' % (f.module.rel, n.lineno))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and attr(n.func.value) == 'object_cache' and n.func.attr in ('pop', 'clear', 'popitem'):
                rep.finding('cache-drop/%s' % f.qual, '%s removes live objects from the cache, so the next reference gets a second object' % f.qual, '%s:%d' % (f.module.rel, n.lineno))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if attr(t) == 'object_cache':
                        rep.count('cache assignments checked')
                        if f.name not in ('__init__', 'close'):
                            rep.finding('cache-replaced/%s' % f.qual, '%s replaces the cache while objects are alive' % f.qual, '%s:%d' % (f.module.rel, n.lineno))


def attr(n):
    return n.attr if isinstance(n, ast.Attribute) else None


def is_counter(d):
    return d[0] == 'attr' and d[2] == 'next_object_id'


def factory(prog, rep):
    fac = prog.need_class('AVBFactory')
    f = fac.find_method('from_name')
    if not isinstance(f, Func):
        rep.unclear('AVBFactory', 'no from_name')
        return

    # state: (advanced, idset, cached, advanced after id)
    def step(st, ev):
        adv, ids, cached = st
        t = ev.target
        if ev.kind == 'aug' and is_counter(t):
            if isinstance(ev.node.op, ast.Add) and ev.value[0] == 'const' and isinstance(ev.value[1], int) and ev.value[1] > 0:
                return [(adv + 1 if adv < 2 else adv, ids, cached)]
            if isinstance(ev.node.op, ast.Sub) or ev.value == ('const', 0):
                return [('back', ids, cached)]
            return [('?', ids, cached)]
        if ev.kind == 'store' and is_counter(t):
            v = strip(ev.value)
            if v[0] == 'bin' and v[1] == 'Add' and ((contains(v[2], is_counter) and v[3][0] == 'const' and v[3][1] > 0) or (contains(v[3], is_counter) and v[2][0] == 'const' and v[2][1] > 0)):
                return [(adv + 1 if isinstance(adv, int) and adv < 2 else adv, ids, cached)]
            return [('?', ids, cached)]
        if ev.kind == 'store' and t[0] == 'attr' and t[2] == 'instance_id':
            v = strip(ev.value)
            if is_counter(v):
                return [(adv, 'pre' if adv else 'post', cached)]
            if v[0] == 'bin' and contains(v, is_counter):
                return [(adv, 'pre', cached)]
            if v[0] in ('const',) or (v[0] == 'call' and v[1] == ('builtin', 'len')):
                rep.finding('factory/id-value', 'a new object gets the id %s, which is not the id counter' % show(v), ev.where)
                return [(adv, 'bad', cached)]
            return [(adv, '?', cached)]
        if ev.kind == 'store' and t[0] == 'idx' and t[1][0] == 'attr' and t[1][2] == 'object_cache':
            return [(adv, ids, ok_key(t[2]))]
        if ev.kind == 'call' and t[0] == 'attr' and t[2] == '__setitem__' and t[1][0] == 'attr' and t[1][2] == 'object_cache':
            return [(adv, ids, ok_key(ev.args[0]))]
        return None

    def ok_key(k):
        k = strip(k)
        if k[0] == 'attr' and k[2] == 'instance_id':
            return 'ok'
        if is_counter(k):
            return 'ok'
        return 'odd'
    o = Flow(prog, step).run(f, {(0, None, None)}, cls=fac)
    for adv, ids, cached in o.n | o.ret:
        rep.count('creation paths checked')
        if ids in ('pre', 'post'):
            if adv == 0 or adv == 'back':
                rep.finding('factory/not-advanced', 'a new object is returned with an id although the id counter was not advanced, so the next object gets the same id', f.where)
            elif adv == '?':
                rep.unclear(f.qual, 'how the id counter changes is not visible')
            if cached is None:
                rep.finding('factory/not-cached', 'a new object is returned without being filed under its id', f.where)
            elif cached == 'odd':
                rep.unclear(f.qual, 'key of the cache store not understood')
        elif ids == '?':
            rep.unclear(f.qual, 'id of the new object not understood')


def counter(prog, rep):
    """where the counter starts, and nobody sets it back"""
    fc = prog.need_class('AVBFile')
    fac = prog.need_class('AVBFactory')
    for f in prog.functions():
        if f.cls is fac:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                continue
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if not any(attr(t) == 'next_object_id' for t in ts):
                continue
            rep.count('counter assignments checked')
            if isinstance(n, ast.AugAssign):
                if isinstance(n.op, ast.Sub):
                    rep.finding('counter-back/%s' % f.qual, '%s sets the id counter back' % f.qual, '%s:%d' % (f.module.rel, n.lineno))
                continue
            if f.name == '__init__' and f.cls is not None:
                continue
            v = resolve(prog, f, n.value)
            k = enough(v)
            if k is False:
                rep.finding('counter-start/%s' % f.qual, '%s sets the id counter to %s, which can be an id in use' % (f.qual, ast.unparse(n.value) if hasattr(ast, 'unparse') else '?'),
                            '%s:%d' % (f.module.rel, n.lineno))
            elif k is None:
                rep.unclear(f.qual, 'value of the id counter not understood')
    # opening a file must set it
    init = fc.find_method('read_header')
    if isinstance(init, Func):
        def step(st, ev):
            if ev.kind == 'store' and is_counter(ev.target):
                return [True]
            if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] == 'read_object' and st is False:
                return [False]
            return None
        o = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] == 'read_object').run(init, {False}, cls=fc)
        if False in (o.n | o.ret):
            # maybe its caller does
            src = set(a.attr for g in prog.functions() if g.cls is fc and g.name in ('__init__',) for a in ast.walk(g.node) if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store))
            rep.finding('counter-unset', 'opening a file can finish without moving the id counter past the stored records, so new objects take ids of stored ones', init.where)


def resolve(prog, f, node):
    from ..flow import assigned_once
    once = assigned_once(f.node)
    seen = set()
    while isinstance(node, ast.Name) and node.id in once and node.id not in seen:
        seen.add(node.id)
        node = once[node.id]
    return node


def enough(v):
    """is the value at least the number of stored records"""
    if isinstance(v, ast.Constant):
        return False
    if isinstance(v, ast.Call) and dotted(v.func) == 'len' and v.args and attr(v.args[0]) == 'object_positions':
        return True
    if isinstance(v, ast.Call) and dotted(v.func) and dotted(v.func).endswith('read_u32'):
        return None
    if isinstance(v, ast.Call) and dotted(v.func) == 'max':
        return True if any(enough(a) for a in v.args) else None
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        a, b = enough(v.left), enough(v.right)
        if a or b:
            return True
        return None
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Sub):
        if enough(v.left) and isinstance(v.right, ast.Constant) and v.right.value == 1 and isinstance(v.left, ast.Call):
            return True          # len(positions) - 1 is the number of records
        return False if enough(v.left) else None
    if isinstance(v, ast.Attribute) and v.attr in ('root_index', 'next_chunk_id'):
        return False
    return None


def refs(prog, rep):
    """resolving a reference goes through the loader with the number of the reference"""
    c = prog.find_class('AVBObjectRef')
    if c is None:
        return
    g = c.find_property('value')
    if not isinstance(g, Func):
        rep.unclear('AVBObjectRef', 'no value property')
        return
    loader_names = set(L.func.name for L in loaders(prog))

    def step(st, ev):
        if ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] in loader_names:
            a = ev.args[0] if ev.args else None
            if a == ('attr', ('self',), 'index'):
                return ['ok']
            if a is not None and a[0] in ('const', 'bin'):
                rep.finding('ref-number', 'a reference is resolved with %s instead of its own record number' % show(a), ev.where)
        return None
    o = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2] in loader_names).run(g, {None}, cls=c)
    rep.count('reference resolutions checked', len(o.n | o.ret))
    if 'ok' not in (o.n | o.ret):
        rep.unclear('AVBObjectRef.value', 'how a reference is resolved is not visible')


def walk(prog, rep):
    """chunks() and iter_class_ids() visit each record once under its own number"""
    s = interp(prog)
    root = empty_file(prog, s, rep)
    if root is None:
        return
    c = prog.need_class('AVBFile')
    for n in range(5):
        for odd in range(2 if n else 1):
            recs = [Inst(None, 'object', 'record %d' % i) for i in range(n + 1)]
            for i, r in enumerate(recs):
                r.attrs['class_id'] = K(b'OBJD' if i == 0 else b'AAAA' if i % 2 == odd else b'BBBB')
                r.attrs['pos'] = K(100 * i + 12)
            for name, args, want in (('chunks', [], recs[1:]),
                                     ('iter_class_ids', [b'AAAA'], [i for i in range(1, n + 1) if i % 2 == odd]),
                                     ('iter_class_ids', [b'AAAA', b'BBBB'], list(range(1, n + 1))),
                                     ('iter_class_ids', [b'CCCC'], [])):
                f = c.find_method(name)
                if not isinstance(f, Func):
                    rep.unclear('AVBFile.%s' % name, 'not found')
                    continue

                def act():
                    l = Inst(None, 'list')
                    l.lst = [K(0)] + [K(100 * k + 4) for k in range(n)]
                    root.attrs['object_positions'] = l
                    root.attrs['root_chunk'] = recs[0]
                    t = Inst(None, 'list')
                    t.lst = list(recs)
                    root.attrs['read_chunk'] = LambdaV(ast.parse('lambda i: t[i]').body[0].value, Env(f.module, {'t': t}, None), f.module)
                    root.attrs['read_object'] = LambdaV(ast.parse('lambda i: i').body[0].value, None, f.module)
                    a = []
                    if name == 'iter_class_ids':
                        k = Inst(None, 'list')
                        k.lst = [K(x) for x in args]
                        a = [k]
                    return s.iterate(s.call(s.getattr(root, name), a, {}))
                for kind, v, ch in s.runs(act, limit=8):
                    rep.count('record walks interpreted')
                    if kind == 'stop' or s.unknowns or isinstance(v, Unknown) or kind == 'raise' and v.name != 'IndexError':
                        rep.unclear('AVBFile.%s' % name, 'not followed: %s' % (v,))
                        continue
                    if kind == 'raise':
                        rep.finding('walk/%s/raises' % name, 'AVBFile.%s raises %s %s for a file of %d records' % (name, v.name, v.text, n), f.where)
                        continue
                    got = list(v)
                    if name == 'chunks':
                        bad = [x for x in got if x is not recs[0]] != want
                    else:
                        bad = [x.v if isinstance(x, K) else x for x in got] != want
                    if bad:
                        rep.finding('walk/%s' % name, 'AVBFile.%s gives %r for a file of %d records, not each %s once in order' % (
                            name, got, n, 'record' if name == 'chunks' else 'object of those kinds under its own number'), f.where)


def stored_chunk(prog, rep):
    """read_chunk(n) reads the header at the position the table has for record n"""
    s = interp(prog)
    root = empty_file(prog, s, rep)
    f = prog.need_class('AVBFile').find_method('read_chunk')
    if root is None or not isinstance(f, Func):
        return rep.unclear('AVBFile.read_chunk', 'not found')
    code = {'seek': 'lambda p, w=0: st.append(p)', 'tell': 'lambda: st[-1]', 'read': 'lambda n=-1: [heads[st[-1]], st.append(st[-1] + n)][0]'}
    for order in ('little', 'big'):
        for n in (1, 2, 3):
            names = [b'OBJD', b'AAAA', b'BBBB', b'CCCC'][:n + 1]
            at = [12] + [100 * k + 4 for k in range(n, 0, -1)]
            for i in range(n + 1):
                def act():
                    table, top = Inst(None, 'list'), Inst(None, 'object', 'root record')
                    table.lst = [K(p) for p in at]
                    heads, st, fo, ic = Inst(None, 'dict'), Inst(None, 'list'), Inst(None, 'object', 'file'), Inst(None, 'object', 'context')
                    st.lst = [K(0)]
                    for p, c in zip(at, names):
                        s.raw_setitem(heads, K(p), K((c[::-1] if order == 'little' else c) + (p + 1).to_bytes(4, order)))
                    for k, t in code.items():
                        fo.attrs[k] = LambdaV(ast.parse(t).body[0].value, Env(f.module, {'st': st, 'heads': heads}, None), f.module)
                    ic.attrs['byte_order'] = K(order)
                    root.attrs.update(f=fo, ictx=ic, object_positions=table, root_chunk=top, root_index=K(n))
                    r = s.call(s.getattr(root, 'read_chunk'), [K(i)], {})
                    if r is top:
                        return 'root'
                    return [s.getattr(r, a) for a in ('class_id', 'pos', 'size')]
                for kind, v, ch in s.runs(act, limit=8):
                    rep.count('record headers interpreted')
                    want = (names[i], at[i] + 8, at[i] + 1)
                    if kind != 'ok' or s.unknowns or ch or v != 'root' and not all(isinstance(x, K) for x in v):
                        if kind == 'raise' and v.name == 'IndexError':
                            rep.finding('chunk/raises', 'AVBFile.read_chunk(%d) raises IndexError in a file of %d records' % (i, n), f.where)
                        else:
                            rep.unclear('AVBFile.read_chunk', 'not followed: %s %s' % (v, s.unknowns or ch))
                        continue
                    if v == 'root':
                        if i != 0:
                            rep.finding('chunk/number', 'AVBFile.read_chunk(%d) gives the root record instead of record %d' % (i, i), f.where)
                    elif i != 0 and tuple(x.v for x in v) != want:
                        rep.finding('chunk/number', 'AVBFile.read_chunk(%d) gives class, position and size %r of a record that has %r' % (i, tuple(x.v for x in v), want), f.where)
