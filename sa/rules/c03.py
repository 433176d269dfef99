"""C03: identifiers are unique, every kind loads and saves, ends with its end marker and
refuses unknown optional blocks."""
import ast
from .common import *
from ..load import Func, Class, dotted
from ..wire import Mismatch
from ..flow import Flow

END = 0x03


def check(prog, rep, tier):
    rep.rule("The registration decorators and calls are read from the source: identifiers (4 bytes) and names are pairwise different, "
             "a class with its own identifier is registered or only serves as a base, and both read and write resolve to package code. "
             "The last wire field of reader and writer of each kind is the constant end marker, and every tagged-block loop raises for any tag it does not handle.")
    registry(prog, rep)
    register_functions(prog, rep)
    seen = set()
    for u in units(prog, rep):
        if u.crash:
            rep.unclear(u.name, u.crash)
            continue
        endings(u, rep)
        loops(u, rep, seen)
    rep.need('identifiers checked', 40)
    rep.need('end markers checked', 60)
    rep.need('tagged block loops checked', 20)


def registry(prog, rep):
    ids, names = {}, {}
    regs = prog.registered()
    classes = set()
    for c, cid, kind in regs:
        classes.add(c)
        if c.name in names and names[c.name] is not c:
            rep.finding('name/%s' % c.name, 'two registered classes are named %s: %s and %s' % (c.name, names[c.name].qual, c.qual), c.where)
        names[c.name] = c
        if kind != 'class':
            continue
        rep.count('identifiers checked')
        if cid is None:
            r = c.find_assign('class_id')
            if r is None or (isinstance(r[0], ast.Constant) and r[0].value is None):
                rep.finding('no-id/%s' % c.name, '%s is registered without an identifier' % c.name, c.where)
            else:
                rep.unclear(c.name, 'identifier is not a literal')
            continue
        if not isinstance(cid, bytes) or len(cid) != 4:
            rep.finding('bad-id/%s' % c.name, '%s has the identifier %r, which is not four bytes' % (c.name, cid), c.where)
            continue
        if cid in ids and ids[cid] is not c:
            rep.finding('id/%s' % cid.decode('latin-1'), '%s and %s share the identifier %r: records of one load as the other' % (ids[cid].name, c.name, cid), c.where)
        ids[cid] = c
        if 'class_id' not in c.assigns:
            owner = c.find_assign('class_id')[1]
            if owner in classes or any(x is owner for x, _, _ in regs):
                rep.finding('inherits-id/%s' % c.name, '%s has no identifier of its own and takes over that of %s' % (c.name, owner.name), c.where)
        for m in ('read', 'write'):
            f = c.find_method(m)
            root = prog.find_class('AVBObject')
            if not isinstance(f, Func) or (root is not None and f.cls is root):
                rep.finding('no-%s/%s' % (m, c.name), '%s has no %s method of its own or of a base kind: its records cannot be %s' % (c.name, m, 'loaded' if m == 'read' else 'saved'), c.where)
            else:
                rep.count('read and write methods resolved')
    for c in prog.classes():
        if c in classes or 'class_id' not in c.assigns:
            continue
        cid = prog.class_id(c)
        if not isinstance(cid, bytes):
            continue
        rep.count('unregistered identifiers checked')
        if not descendants(c) & classes:
            rep.finding('unregistered/%s' % c.name, '%s has the identifier %r but is not registered: its records cannot be loaded' % (c.name, cid), c.where)
        elif cid in ids and c not in ids[cid].mro():
            pass
    return ids


def descendants(c):
    out = set()
    for s in c.subclasses:
        out.add(s)
        out |= descendants(s)
    return out


def register_functions(prog, rep):
    """register_class files the class under its id and its name, and returns it"""
    for name, tables in (('register_class', ('class_id', '__name__')), ('register_helper_class', ('__name__',))):
        fs = [f for f in prog.functions() if f.name == name and f.cls is None]
        if not fs:
            rep.unclear(name, 'not found')
            continue
        f = fs[0]
        a = f.node.args.args
        if not a:
            rep.unclear(name, 'no parameter')
            continue
        me = ('param', a[0].arg)

        def step(st, ev):
            keys, ret = st
            if ev.kind == 'store' and ev.target[0] == 'idx' and ev.target[1][0] == 'glob' and ev.value == me:
                k = ev.target[2]
                if k[0] == 'attr' and k[1] == me:
                    return [(keys | frozenset([k[2]]), ret)]
                return [(keys | frozenset(['?']), ret)]
            if ev.kind == 'return':
                return [(keys, 'self' if ev.target == me else 'other')]
            return None
        o = Flow(prog, step).run(f, {(frozenset(), None)})
        rep.count('registration functions checked')
        for keys, ret in o.n | o.ret:
            for t in tables:
                if t not in keys and '?' not in keys:
                    rep.finding('%s/%s' % (name, t), '%s does not file the class under its %s' % (name, 'identifier' if t == 'class_id' else 'name'), f.where)
            if ret != 'self':
                if ret is None or any(n.value is None for n in ast.walk(f.node) if isinstance(n, ast.Return)):
                    rep.finding('%s/returns' % name, '%s does not give the class back to the decorator' % name, f.where)
                else:
                    rep.unclear(name, 'what it returns is not visible')


def last_of(out, u, writer):
    """constants the tree can end with: set of ints, None for not understood"""
    if not out:
        return {'nothing'}
    n = out[-1]
    if isinstance(n, P):
        if writer:
            v = getattr(n, 'val', None)
            return {cv(v)} if v is not None and is_c(v) else {'value'}
        c = getattr(n, 'const', None)
        if c is None:
            return {'value'}
        return {cv(c) if isinstance(c, tuple) and is_c(c) else c}
    if isinstance(n, Alt):
        r = set()
        for br in (n.a, n.b):
            if br and isinstance(br[-1], Raise):
                continue
            r |= last_of(br if br else out[:-1], u, writer)
        return r
    if isinstance(n, ExtLoop):
        return {'ext'}
    if isinstance(n, Raise):
        return set()
    if isinstance(n, Loop):
        return {'loop'}
    return {None}


def endings(u, rep):
    rs, ws = last_of(u.r.out, u, False), last_of(u.w.out, u, True)
    for side, s, what in (('read', rs, 'reader'), ('write', ws, 'writer')):
        rep.count('end markers checked')
        if None in s:
            rep.unclear('%s.%s' % (u.name, side), 'end not understood')
            continue
        s = set(x if not isinstance(x, (bytes, bytearray)) else (x[0] if len(x) == 1 else x) for x in s)
        if s != {END}:
            rep.finding('%s/%s-end' % (u.name, side), 'the %s of %s does not end with the end marker' % (what, u.name), u.cls.where)


def walk(out):
    for n in out:
        yield n
        if isinstance(n, Loop):
            for x in walk(n.body):
                yield x
        elif isinstance(n, Alt):
            for br in (n.a, n.b):
                for x in walk(br):
                    yield x
        elif isinstance(n, ExtLoop):
            for c in (n.cases.values() if isinstance(n.cases, dict) else [c[1] if isinstance(c, tuple) else c for c in n.cases]):
                if isinstance(c, (list, tuple)):
                    for x in walk([y for y in c if isinstance(y, (P, Loop, Alt, ExtLoop, Raise, Opaque))]):
                        yield x


def loops(u, rep, seen):
    for n in walk(u.r.out):
        if isinstance(n, ExtLoop):
            rep.count('tagged block loops checked')
            if not n.rejects:
                owner = loc(n).rsplit(':', 1)[0] if loc(n) else ''
                rep.finding('%s/accepts-unknown/%s' % (u.name, sorted(str(k) for k in n.cases)), 'the reader of %s goes on after an optional block it does not know' % u.name, loc(n))
