"""C18: separately created objects share no mutable state."""
from ..shapes import Inst, Atom, K, Unknown, reach, ClassV, FuncV
from ..load import Func
from .shapeutil import interp, empty_file


def check(prog, rep, tier):
    rep.rule("For every registered kind and for the file class itself two creations, one after the other, are interpreted, and every mutable node reachable from both, or from one of them and from a module or class level table, is reported.")
    rep.assume("Creation through the factory and through direct construction of the file and id classes; opaque results of library calls are taken to be new values.")
    s = interp(prog)
    root = empty_file(prog, s, rep)
    if root is None:
        return

    def pair(name, make, where, skip):
        def act():
            return make(), make()
        for kind, v, ch in s.runs(act, limit=12):
            if kind != 'ok':
                rep.unclear(name, 'creation: %s' % v)
                continue
            x, y = v
            if isinstance(x, Unknown) or isinstance(y, Unknown):
                rep.unclear(name, 'creation: %s' % x)
                continue
            for u in s.unknowns[:1]:
                rep.unclear(name, 'creation depends on %s' % u)
            rep.count('pairs compared')
            if x is y:
                rep.finding('same/%s' % name, 'creating a %s twice gives the same object' % name, where)
                continue
            a, b = reach(x, skip), reach(y, skip)
            rep.count('mutable values followed', len(a))
            for k, (n, p) in a.items():
                if k in b:
                    rep.finding('shared/%s/%s' % (name, tidy(p)), 'two new %s objects share the mutable value of %s' % (name, tidy(p)), where)
            g = {}
            for key, t in list(s.globals.items()) + [((c.name, n), t) for (c, n), t in s.classattrs.items()]:
                # registries and definitions are read-only tables: only what an instance holds counts
                for k, (n, p) in reach(t, skip).items():
                    g.setdefault(k, (key, p))
            # a table that lists the objects themselves is a registry, not shared state
            for k, (n, p) in a.items():
                if ('i', x.id) in g:
                    break
                if k in g and not isinstance(n, (ClassV, FuncV)):
                    rep.finding('table/%s/%s' % (name, tidy(p)), 'a new %s holds in %s a mutable value that belongs to %s' % (name, tidy(p), label(g[k][0])), where)
    fac = root.attrs.get('create')
    for c, cid, kind in prog.registered():
        rep.count('kinds created')
        pair(c.name, lambda: s.call(s.getattr(fac, 'from_name'), [K(c.name)], {}), c.where, (root,))
    fc = prog.need_class('AVBFile')
    pair('AVBFile', lambda: s.instantiate(fc, [], {}), fc.where, ())
    mc = prog.find_class('MobID')
    if mc is not None:
        pair('MobID', lambda: s.instantiate(mc, [], {}), mc.where, ())
        new = mc.find_method('new')
        if isinstance(new, Func):
            pair('MobID.new', lambda: s.call(FuncV(new), [], {}), new.where, ())
    rc = prog.find_class('AVBRefList')
    if rc is not None:
        pair('AVBRefList', lambda: s.instantiate(rc, [], {'root': root}), rc.where, (root,))
    rep.need('kinds created', 60)
    rep.need('pairs compared', 50)


def tidy(p):
    return p.replace('.property_data', '') or 'itself'


def label(k):
    return '.'.join(str(x) for x in k) if isinstance(k, tuple) and k[0] != 'default' else 'a default argument'
