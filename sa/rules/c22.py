"""C22: names shown for stored codes are one to one with the codes."""
import ast
from ..load import Func, Class
from ..shapes import Inst, Atom, K, Unknown, FuncV
from .shapeutil import interp, empty_file, plain

INTS = ('int', 'uint', 'bool')


def check(prog, rep, tier):
    rep.rule("Every property getter of every kind is interpreted with open integer properties; a getter that names codes is one whose cases are decided by comparing one stored integer with constants. "
             "The table so found must have one name per code; its setter and a constructor argument of the same name, interpreted on every name and on an open text, must store exactly the code that is shown by that name and refuse every other text. "
             "A comparison of such a property with a literal must use a name of the table.")
    rep.assume("Only names that are constants count; the text composed for a code outside the table is not a name.")
    s = interp(prog)
    root = empty_file(prog, s, rep)
    if root is None:
        return
    fac = root.attrs.get('create')
    done = {}
    shared = {}             # (getter, property) -> [(class, table)]
    all_names = {}          # getter name -> set of names or None when some class gives it other values
    classes = [c for c, cid, kind in prog.registered()]
    for c in list(classes):
        for b in c.mro():
            if isinstance(b, Class) and b not in classes and b.name not in ('AVBObject',) and prog.propertydefs(b):
                classes.append(b)
    for c in classes:
        pdefs = prog.propertydefs(c)
        if not pdefs:
            continue
        for g in sorted({n for b in c.mro() if isinstance(b, Class) for n in b.getters}):
            f = c.find_property(g)
            if not isinstance(f, Func) or f.cls is None:
                continue
            rep.count('getters interpreted')
            t = done.get((f, tuple(sorted(n for n, *_ in pdefs))))
            if t is None:
                t = table(prog, s, root, c, pdefs, g)
                done[(f, tuple(sorted(n for n, *_ in pdefs)))] = t
            if t == ():
                all_names.setdefault(g, set()).add(None)
                continue
            prop, names, other, unsure = t
            if (f, prop) not in done:
                done[(f, prop)] = True
                report(rep, c, g, f, t)
                for c2, names2 in shared.setdefault((g, prop), []):
                    rep.count('tables compared')
                    for k in set(names) | set(names2):
                        if names.get(k) != names2.get(k) and (k in names and k in names2 or names.get(k, names2.get(k)) is not None):
                            rep.finding('differs/%s/%s' % (g, k), '%s %r is shown as %r by %s of %s and as %r by that of %s' % (prop, k, names.get(k), g, c.name, names2.get(k), c2.name), f.where)
                shared[(g, prop)].append((c, names))
                all_names.setdefault(g, set()).update(v for v in names.values() if v is not None)
                if isinstance(other, K) and isinstance(other.v, str):
                    all_names[g].add(other.v)
            if other == 'text':
                all_names[g].add('*')
            rep.count('tables on a kind')
            st = c.find_setter(g)
            if isinstance(st, Func) and (st, f) not in done:
                done[(st, f)] = True
                setter(s, rep, c, g, st, t, lambda v: assign(prog, s, root, c, pdefs, g, v), 'setting %s' % g)
            i = c.find_method('__init__')
            if isinstance(i, Func) and not isinstance(i, tuple) and c in [x for x, _, _ in prog.registered()]:
                if g in [a.arg for a in i.node.args.args] and (i, f) not in done:
                    done[(i, f)] = True
                    setter(s, rep, c, g, i, t, lambda v: s.call(s.getattr(fac, c.name), [], {g: v}), 'creating one with %s=' % g)
    literals(prog, rep, all_names, classes)
    rep.need('getters interpreted', 60)
    rep.need('tables found', 3)
    rep.need('names checked', 20)


def make(prog, s, root, c, pdefs):
    o = plain(prog, s, root, c.name, 1)
    pd = o.attrs.get('property_data')
    if pd is None:
        return None, {}
    atoms = {}
    for n, t, d, _, _ in pdefs:
        if t and t.startswith(INTS):
            a = Atom('int', n)
            s.raw_setitem(pd, K(n), a)
            atoms[a.id] = n
    return o, atoms


def tests(choices):
    """[(atom id, constant, outcome)] of the equality tests, None when another test was made"""
    out = []
    for key, v in choices:
        if key[0] in ('eq', 'is') and len(key) == 3:
            a, b = key[1], key[2]
            if a[0] == 'k':
                a, b = b, a
            if a[0] == 'a' and b[0] == 'k':
                try:
                    out.append((a[1], ast.literal_eval(b[1]), v))
                    continue
                except (ValueError, SyntaxError):
                    pass
        return None
    return out


def table(prog, s, root, c, pdefs, g):
    """(property, {code: name}, name of all other codes or 'raise' or 'text', unsure) or ()"""
    state = {}

    def act():
        o, atoms = make(prog, s, root, c, pdefs)
        state['atoms'] = atoms
        if o is None:
            return Unknown('kind')
        return s.getattr(o, g)
    names, other, prop, cases = {}, None, None, 0
    for kind, v, ch in s.runs(act, limit=200):
        cases += 1
        if kind == 'stop' or s.unknowns or isinstance(v, Unknown):
            return ()
        ts = tests(ch)
        if ts is None:
            return ()
        props = {state['atoms'].get(a) for a, _, _ in ts}
        if len(props) != 1 or None in props or prop not in (None, list(props)[0]):
            return ()
        prop = list(props)[0]
        hit = [k for _, k, r in ts if r]
        if kind == 'raise':
            val = 'raise'
        elif isinstance(v, K):
            val = v
        elif isinstance(v, Atom) and v.kind == 'str':
            val = 'text'
        else:
            return ()
        if hit:
            if len(hit) > 1 and len(set(hit)) > 1:
                continue
            if isinstance(val, K) and (isinstance(val.v, str) or val.v is None):
                names[hit[0]] = val.v
            elif val not in ('raise', 'text'):
                return ()
        else:
            other = val
    if cases < 3 or not any(isinstance(x, str) for x in names.values()):
        return ()
    return prop, names, other, False


def report(rep, c, g, f, t):
    prop, names, other, _ = t
    rep.count('tables found')
    back = {}
    for code, n in sorted(names.items(), key=repr):
        rep.count('names checked')
        if n in back:
            rep.finding('twice/%s/%s/%s' % (f.cls.name, g, n), 'codes %r and %r of %s are both shown as %r' % (back[n], code, prop, n), f.where)
        back[n] = code
    if isinstance(other, K) and other.v is not None and other.v in back:
        rep.finding('rest/%s/%s' % (f.cls.name, g), 'every other value of %s is shown as %r like code %r' % (prop, other.v, back[other.v]), f.where)
    # a name that no code shows: its code was taken by another name
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            x = n.value.value
            if x not in back and not (isinstance(other, K) and other.v == x):
                rep.finding('unused/%s/%s/%s' % (f.cls.name, g, x), 'the name %r is shown for no code of %s' % (x, prop), '%s:%d' % (f.module.rel, n.lineno))
    rep.sample('%s.%s: %s of %s' % (f.cls.name, g, names, prop))


def assign(prog, s, root, c, pdefs, g, v):
    o, _ = make(prog, s, root, c, pdefs)
    s.setattr(o, g, v)
    return o


def stored(s, o, prop):
    pd = o.attrs.get('property_data')
    e = pd.dct.get(s.key(K(prop))) if isinstance(pd, Inst) else None
    return e[1] if e else None


def setter(s, rep, c, g, f, t, act, what):
    prop, names, other, _ = t
    unit = '%s/%s' % (c.name, what)
    for code, n in sorted(names.items(), key=repr):
        if n is None and f.name == '__init__':
            continue
        rep.count('names stored')
        for kind, v, ch in s.runs(lambda: act(K(n)), limit=8):
            if kind == 'stop' or s.unknowns:
                rep.unclear(unit, 'name %r: %s' % (n, v))
                continue
            if kind == 'raise':
                if v.name in ('ValueError', 'KeyError') or not v.text:
                    rep.finding('refused/%s/%s/%r' % (c.name, g, n), '%s %r, the name of code %r, is refused' % (what, n, code), f.where)
                else:
                    rep.finding('refused/%s/%s/%r' % (c.name, g, n), '%s %r raises %s %s' % (what, n, v.name, v.text), f.where)
                continue
            x = stored(s, v, prop) if isinstance(v, Inst) else None
            if isinstance(x, K):
                if x.v != code:
                    rep.finding('code/%s/%s/%r' % (c.name, g, n), '%s %r stores code %r, which is shown as %r; the code of that name is %r' % (what, n, x.v, names.get(x.v), code), f.where)
            else:
                rep.unclear(unit, 'name %r stores %r' % (n, x))
    # an open value
    a = {}

    def open_value():
        a['v'] = Atom('?', 'name')
        return act(a['v'])
    by_name = {n: code for code, n in names.items()}
    for kind, v, ch in s.runs(open_value, limit=200):
        rep.count('open names')
        if kind == 'stop' or s.unknowns:
            rep.unclear(unit, 'open name: %s' % (v,))
            continue
        mine = [k for k in ch if repr(('a', a['v'].id)) in repr(k[0])]
        ts = tests(mine)
        if ts is None:
            rep.unclear(unit, 'open name is tested in another way')
            continue
        hit = [k for _, k, r in ts if r]
        if len(set(map(repr, hit))) > 1:
            continue
        if kind == 'raise':
            if hit and hit[0] in by_name:
                rep.finding('refused/%s/%s/%r' % (c.name, g, hit[0]), '%s %r is refused' % (what, hit[0]), f.where)
            continue
        x = stored(s, v, prop) if isinstance(v, Inst) else None
        if not hit:
            if isinstance(x, K):
                rep.finding('unknown/%s/%s' % (c.name, g), '%s an unknown name is not refused but stores code %r' % (what, x.v), f.where)
            elif isinstance(x, Atom) and x.label == prop:
                rep.finding('unknown/%s/%s' % (c.name, g), '%s an unknown name is silently ignored' % what, f.where)
            else:
                rep.unclear(unit, 'unknown name stores %r' % (x,))
            continue
        if isinstance(x, K):
            if hit[0] not in by_name:
                if names.get(x.v) != hit[0]:
                    rep.finding('alias/%s/%s/%r' % (c.name, g, hit[0]), '%s %r stores code %r, which is shown as %r' % (what, hit[0], x.v, names.get(x.v, 'unknown')), f.where)
            elif by_name[hit[0]] != x.v:
                rep.finding('code/%s/%s/%r' % (c.name, g, hit[0]), '%s %r stores code %r, not %r' % (what, hit[0], x.v, by_name[hit[0]]), f.where)
        else:
            rep.unclear(unit, 'name %r stores %r' % (hit[0], x))


def literals(prog, rep, all_names, classes):
    """comparisons of a named property with a literal that is no name of it"""
    stored_names = {n for c in classes for n, *_ in prog.propertydefs(c)}
    tabs = {g: n for g, n in all_names.items() if None not in n and '*' not in n and g not in stored_names}
    tabs.update({g: n - {None, '*'} for g, n in all_names.items() if g in ('media_kind', 'mob_type') and g not in stored_names})
    for f in prog.functions():
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Compare) or len(n.ops) != 1:
                continue
            for a, b in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                if isinstance(a, ast.Attribute) and a.attr in tabs and len(tabs[a.attr]) > 1:
                    try:
                        v = prog.const(f.module, b)
                    except ValueError:
                        continue
                    for x in v if isinstance(v, (tuple, list, set, frozenset)) else [v]:
                        if isinstance(x, str):
                            rep.count('literals compared')
                            if x not in tabs[a.attr] and not x.startswith('unknown'):
                                rep.finding('literal/%s/%s' % (f.qual, x), 'compares %s with %r, which is not one of its names' % (a.attr, x), '%s:%d' % (f.module.rel, n.lineno))
