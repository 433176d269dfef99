"""C11: loading, querying, walking and saving modify nothing."""
import ast
from ..load import Func, Class
from ..flow import show
from ..loading import loaders
from ..effects import Effects, root_of, MUTATORS

# bookkeeping of the file object itself, not part of the bin
BOOKKEEPING = frozenset(('next_chunk_id', 'ref_mapping', 'octx', 'ictx', 'reading', 'object_cache', 'f', 'object_positions', 'fast_readers',
                         'check_refs', 'debug_copy_refs'))
QUERY_PREFIX = ('walk', 'iter', 'find', 'nearest', 'positions', 'dependant', 'chunks', 'integrate', 'media_', 'read_chunk', 'hex', 'get',
                'compositionmobs', 'mastermobs', 'sourcemobs', 'toplevel')
QUERY_NAMES = frozenset(('__repr__', '__str__', '__iter__', '__getitem__', '__getattr__', '__len__', '__eq__', '__ne__', '__hash__', '__contains__',
                         'items', 'values', 'keys', 'get', 'deref', 'copy', 'compositionmobs', 'mastermobs', 'sourcemobs', 'toplevel', 'value',
                         'int', 'urn', 'to_dict', 'get_property_def', 'valid', '__enter__'))


def check(prog, rep, tier):
    rep.rule("Typestate of the decoding flag over the record loader: set before either decoder runs, cleared on every normal and exceptional exit; every function that sets it clears it. "
             "Effect analysis: no property getter, save method, traversal, lookup or copy source path stores into, or calls a mutator on, anything that belongs to its object or arguments "
             "(in-repo callees inlined, aliases and loop elements followed).")
    for L in loaders(prog):
        rep.count('record loaders')
        for key, text, where in L.findings:
            if key == 'not-reading':
                rep.finding('%s/not-reading' % L.func.name, '%s: %s' % (L.func.qual, text), where)
        exits = [('returns', s) for s in L.out.n | L.out.ret] + [('fails', s) for s in L.out.exc]
        rep.count('loader exits', len(exits))
        for how, s in exits:
            if s[0] is True:
                rep.finding('%s/flag-%s' % (L.func.name, how), '%s: the file still thinks it is reading when loading %s, so later changes are not recorded' % (L.func.qual, how), L.func.where)
            elif s[0] == 'unk':
                rep.unclear(L.func.qual, 'decoding flag set to something not recognised')
    flag(prog, rep)
    purity(prog, rep)
    rep.need('record loaders', 1)
    rep.need('read-only functions analysed', 100)


def flag(prog, rep):
    from ..flow import Flow
    done = set(L.func.qual for L in loaders(prog))
    for f in prog.functions():
        sets = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True \
                    and any(isinstance(t, ast.Attribute) and t.attr == 'reading' for t in n.targets):
                sets = True
        if not sets or f.qual in done:
            continue
        rep.count('other functions that set the flag')

        def step(st, ev):
            if ev.kind == 'store' and ev.target[0] == 'attr' and ev.target[2] == 'reading':
                if ev.value == ('const', True):
                    return [True]
                return [False]
            return None
        o = Flow(prog, step).run(f, {False}, cls=f.cls)
        called_by_loader = any(f.qual in L.inlined for L in loaders(prog))
        if True in (o.n | o.ret | o.exc) and not called_by_loader:
            rep.finding('%s/flag' % f.qual, '%s can leave the file in the state of reading' % f.qual, f.where)


def read_only(f):
    if f.kind == 'getter':
        return True
    if f.kind in ('setter', 'deleter'):
        return False
    if f.name in ('write', 'write_object', 'write_header') or f.name.startswith('write_'):
        return True
    if f.name in QUERY_NAMES or f.name.startswith(QUERY_PREFIX):
        return True
    return False


def purity(prog, rep):
    objs = prog.need_class('AVBObject')
    for f in prog.functions():
        if not read_only(f):
            continue
        rep.count('read-only functions analysed')
        classes = [f.cls]
        params = [a.arg for a in f.node.args.args]
        e = Effects(prog, f, f.cls)
        rep.count('calls followed or classified', e.ncalls)
        rep.count('unresolved calls', e.unresolved)
        for kind, place, ev in e.found:
            r = root_of(place if kind != 'mark' else place[1])
            if r is None or r[0] in ('glob', 'class'):
                continue
            if r == ('param', 'f') or (r[0] == 'param' and kind == 'call' and place[1] == r and is_local_buffer(f, r[1])):
                continue
            if bookkeeping(place, kind):
                continue
            if private(prog, f, place if kind not in ('call', 'mark') else place[1]):
                continue
            if f.name == 'copy' and r == ('param', 'root'):
                continue
            if kind == 'call' and place[2] not in MUTATORS:
                continue
            if kind == 'call' and place[1][0] == 'call' and place[1][1] == ('builtin', 'super'):
                continue
            if kind == 'call' and place[2] in ('update', 'add', 'discard') and r[0] == 'param':
                continue
            if kind == 'call' and r[0] == 'param' and place[1] == r:
                rep.unclear(f.qual, 'mutates its argument %s' % r[1])
                continue
            what = {'store': 'sets', 'aug': 'changes', 'del': 'deletes', 'call': 'changes', 'mark': 'marks'}[kind]
            rep.finding('impure/%s/%s' % (f.qual, show(place)), '%s only looks at or saves an object but %s %s' % (f.qual, what, show(place)), ev.where)


def private(prog, f, d):
    """a field of self that no kind declares as a property"""
    chain = []
    while isinstance(d, tuple) and d != ('self',):
        if d[0] == 'attr':
            chain.append(d[2])
            d = d[1]
        elif d[0] in ('idx', 'slice', 'elem', 'item'):
            d = d[1]
        elif d[0] == 'local' and len(d) > 2:
            d = d[2]
        else:
            return False
    if d != ('self',) or not chain or f.cls is None or not f.cls.is_subclass('AVBObject'):
        return False
    name = chain[-1]
    if name == 'property_data':
        return False
    return name.startswith('_') and name not in declared(prog)


_decl = {}


def declared(prog):
    if id(prog) not in _decl:
        s = set()
        for c, _, _ in prog.registered():
            for d in prog.propertydefs(c):
                s.add(d[0])
        _decl.clear()
        _decl[id(prog)] = s
    return _decl[id(prog)]


def is_local_buffer(f, name):
    return False


def bookkeeping(place, kind):
    """does the place belong to the file object's own bookkeeping"""
    d = place if kind not in ('call', 'mark') else place[1]
    while isinstance(d, tuple):
        if d[0] == 'attr':
            if d[2] in BOOKKEEPING:
                return True
            d = d[1]
        elif d[0] in ('idx', 'slice', 'elem', 'item'):
            d = d[1]
        elif d[0] == 'local' and len(d) > 2:
            d = d[2]
        else:
            return False
    return False
