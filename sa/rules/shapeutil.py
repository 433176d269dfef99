"""shared set-up of the shape interpreter"""
from ..load import Func
from ..shapes import Shapes, Inst, Atom, K, NONE, Unknown, children
from ..models import Model


def interp(prog):
    s = Shapes(prog)
    s.register_all()
    return s


def empty_file(prog, s, rep, name='AVBFile'):
    """an instance as the constructor makes it for a new file, None (reported) when that cannot be followed"""
    rs = list(s.runs(lambda: s.instantiate(prog.need_class(name), [], {})))
    for r in rs:
        if r[0] == 'ok' and not any(isinstance(x, Unknown) for x in r[1].attrs.values()):
            return r[1]
    rep.unclear(name, 'a new one cannot be followed: %s' % (rs[0][1],))
    return None


def stored_ref(prog, s, root, n, o):
    """a reference to object n of the file, which is loaded already"""
    r = s.new(prog.need_class('AVBObjectRef'))
    r.attrs['root'] = root
    r.attrs['index'] = K(n)
    s.raw_setitem(root.attrs['object_cache'], K(n), o)
    return r


def plain(prog, s, root, cname, n, props=()):
    """an object of a kind with some properties"""
    o = s.new(prog.need_class(cname))
    o.label = '%s %d' % (cname, n)
    o.attrs['root'] = root
    o.attrs['instance_id'] = K(n)
    if o.kind is None:
        pd = s.new(prog.need_class('AVBPropertyData'))
        o.attrs['property_data'] = pd
        for k, v in props:
            s.raw_setitem(pd, K(k), v)
    elif o.kind == 'list':
        o.attrs['parent'] = NONE
    return o


def models(prog, s, root, u, ref, reps=2):
    """[graph] of the kind, one per alternative form of its values"""
    out = []
    pick = 0
    while True:
        m = Model(s, root, u, ref, pick, reps)
        o = m.build()
        out.append((o, m))
        pick += 1
        if pick >= m.width:
            return out
