"""C25: the factory makes an object of exactly the kind asked for."""
from ..shapes import Inst, Atom, K, Unknown, ClassV, FuncV, NONE
from ..load import Func
from .shapeutil import interp, empty_file


def check(prog, rep, tier):
    rep.rule("The factory is interpreted for every registered name, called directly, through its attribute of that name, and through two such attributes held at the same time: on every path the result is an instance of the class registered under that name, "
             "belongs to the file of the factory, its constructor has received exactly the arguments given, and creation without arguments succeeds. A name that is not registered ends in ValueError. "
             "Each optional argument of a constructor that is named like a property of the class is the value of that property afterwards.")
    rep.assume("Creation is interpreted over summary values.")
    s = interp(prog)
    root = empty_file(prog, s, rep)
    other = empty_file(prog, s, rep)
    if root is None or other is None:
        return
    fac = root.attrs.get('create')
    if not isinstance(fac, Inst) or fac.cls is None:
        rep.unclear('AVBFile', 'factory')
        return
    where = fac.cls.where
    reg = prog.registered()
    names = {}
    for c, cid, kind in reg:
        names.setdefault(c.name, []).append(c)
    for n, cs in names.items():
        if len(cs) > 1:
            rep.finding('name-clash/%s' % n, 'two classes are registered under the name %s' % n, cs[1].where)

    def verify(what, c, kind, v, fst=None, args=None):
        if kind == 'stop':
            rep.unclear(c.name, '%s: %s' % (what, v))
            return
        if kind == 'raise':
            if s.unknowns:
                rep.unclear(c.name, '%s: %s' % (what, v))
            elif v.name == 'TypeError' and 'missing' in v.text:
                rep.finding('needs-arguments/%s' % c.name, '%s cannot be created without arguments (%s), so it cannot be copied either' % (c.name, v.text), c.where)
            else:
                rep.finding('raises/%s/%s' % (c.name, v.name), 'creating a %s (%s) raises %s: %s' % (c.name, what, v.name, v.text), c.where)
            return
        rep.count('creations checked')
        if isinstance(v, Unknown):
            rep.unclear(c.name, '%s: %s' % (what, v))
            return
        if not isinstance(v, Inst) or v.cls is None:
            rep.finding('result/%s' % c.name, 'creating a %s (%s) gives %r' % (c.name, what, v), where)
            return
        if v.cls is not c:
            rep.finding('kind/%s' % what, 'creating a %s %s gives a %s' % (c.name, what, v.cls.name), where)
            return
        if v.attrs.get('root') is not root:
            rep.finding('root/%s' % what, 'an object created %s does not belong to the file whose factory was asked' % what, where)
        if other_holds(other, v):
            rep.finding('registered-elsewhere/%s' % what, 'an object created %s is registered in another file' % what, where)

    def from_name(n, args=(), kw=None):
        return s.call(s.getattr(fac, 'from_name'), [K(n)] + list(args), kw or {})
    for n, cs in sorted(names.items()):
        c = cs[-1]
        rep.count('names checked')
        for kind, v, ch in s.runs(lambda: from_name(n), limit=12):
            verify('by name', c, kind, v)
        if not (isinstance(fac.cls.find_method(n), Func)):
            for kind, v, ch in s.runs(lambda: s.call(s.getattr(fac, n), [], {}), limit=12):
                verify('by attribute', c, kind, v)
    # held methods: both orders, and one used as an argument of the other
    some = [n for n in sorted(names) if names[n][-1].find_assign('class_id')][:6]
    for n in some:
        for m in some:
            if n == m:
                continue

            def act():
                f = s.getattr(fac, n)
                g = s.getattr(fac, m)
                return s.call(f, [], {}), s.call(g, [], {}), s.call(f, [], {})
            for kind, v, ch in s.runs(act, limit=4):
                if kind != 'ok':
                    rep.unclear(n, 'held methods: %s' % v)
                    continue
                for x, k in zip(v, (n, m, n)):
                    verify('with a factory method held for later', names[k][-1], 'ok', x)
    arguments(prog, s, rep, fac, names, root)
    unknown(s, rep, fac, where)
    rep.need('names checked', 60)
    rep.need('creations checked', 100)


def other_holds(other, v):
    for k in ('object_cache', 'modified_objects'):
        d = other.attrs.get(k)
        if isinstance(d, Inst) and d.dct is not None and any(x is v for _, x in d.dct.values()):
            return True
    return False


def unused(s, rep, m, n, params, given, rs):
    """an argument must be stored or decide something in some case"""
    if not any(r[0] == 'ok' for r in rs) or any(r[0] == 'stop' or r[4] for r in rs):
        return
    for p, g in zip(params, given):
        rep.count('arguments traced')
        for kind, v, _, ch, _ in rs:
            if "('a', %d)" % g.id in ch or any("(%r, %d" % (w, g.id) in ch for w in ('truth', 'isinst')):
                break
            if kind == 'raise':
                break
            if any(isinstance(x, Unknown) or isinstance(x, Atom) and (x.origin() is g or x.kind == '?' and not any(x.origin() is y for y in given) or x.label in ('computed', 'text', 'number', 'str()', 'int()', 'float()', 'bytes()', 'encoded', 'part'))
                   for x in held(v, set())):
                break
        else:
            rep.finding('unused/%s/%s' % (n, p), 'creating a %s with %s=... makes no use of the argument' % (n, p), m.where)


def held(v, seen):
    """the values in an object"""
    if not isinstance(v, Inst) or v.id in seen:
        return [v]
    seen.add(v.id)
    out = []
    for x in list(v.attrs.values()) + list(v.lst or ()) + [y for _, y in (v.dct or {}).values()]:
        if isinstance(x, Inst) and x.cls is not None and x.cls.name in ('AVBFile', 'AVBFactory'):
            continue
        out += held(x, seen)
    return out


def arguments(prog, s, rep, fac, names, root):
    """what is given reaches the constructor, and the properties named like it"""
    for n, cs in sorted(names.items()):
        c = cs[-1]
        m = c.find_method('__init__')
        if not isinstance(m, Func):
            continue
        a = m.node.args
        params = [x.arg for x in a.args][1:]
        if not params:
            continue
        for mode in ('keyword', 'position'):
            given = [Atom('?', p) for p in params]
            first = {}

            def hook(sh, f, args, kw):
                if isinstance(f, FuncV) and f.f.name == '__init__' and f.f is m and 'a' not in first:
                    al = ([f.selfv] if f.selfv is not None else []) + list(args)
                    first['a'] = (al, dict(kw))
                return None

            def act():
                first.clear()
                if mode == 'keyword':
                    return s.call(s.getattr(fac, n), [], dict(zip(params, given)))
                return s.call(s.getattr(fac, n), list(given), {})
            s.hook_call = hook
            try:
                rs = []
                for kind, v, ch in s.runs(act, limit=24):
                    rs.append((kind, v, dict(first), repr(ch), bool(s.unknowns)))
            finally:
                s.hook_call = None
            unused(s, rep, m, n, params, given, rs)
            for kind, v, fst, _, _ in rs:
                if 'a' not in fst:
                    if kind == 'ok':
                        rep.unclear(n, 'constructor call not seen')
                    continue
                al, kw = fst['a']
                got = dict(zip(['self'] + params, al))
                got.update(kw)
                rep.count('argument lists checked')
                for p, g in zip(params, given):
                    if got.get(p) is not g:
                        if isinstance(got.get(p), Unknown):
                            rep.unclear(n, 'argument %s' % p)
                        else:
                            rep.finding('argument/%s' % p, 'the argument %s given to the factory does not reach the constructor (%s)' % (p, got.get(p)), fac.cls.where)
                if kind != 'ok' or not isinstance(v, Inst):
                    continue
                pd = v.attrs.get('property_data')
                if not isinstance(pd, Inst):
                    continue
                for p, g in zip(params, given):
                    e = pd.dct.get(s.key(K(p)))
                    if e is None:
                        continue
                    x = e[1]
                    rep.count('constructor arguments followed')
                    if x is g or isinstance(x, Unknown) or isinstance(x, Atom) and x.origin() is g:
                        continue
                    if isinstance(x, Atom) and x.kind in ('?', 'float', 'int', 'str'):
                        continue            # converted
                    rep.finding('ignored/%s/%s' % (m.qual, p), 'a %s does not take its %s from the argument %s but is given %r' % (c.name, p, p, x), m.where)


def unknown(s, rep, fac, where):
    for n in ('NoSuchKind', 'filler', ''):
        for kind, v, ch in s.runs(lambda: s.call(s.getattr(fac, 'from_name'), [K(n)], {}), limit=6):
            rep.count('unknown names checked')
            if kind == 'stop' or s.unknowns:
                rep.unclear(n, 'unknown name: %s' % v)
            elif kind == 'ok':
                rep.finding('unknown-name', 'the factory gives %r for a name no kind is registered under' % (v,), where)
            elif v.name not in ('ValueError', 'AttributeError', 'KeyError', 'LookupError', 'NotImplementedError'):
                rep.finding('unknown-name', 'a name no kind is registered under ends in %s (%s)' % (v.name, v.text), where)
