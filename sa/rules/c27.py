"""C27: the traversal that selects what a save writes reaches every written reference."""
import time
from ..load import Func
from ..pe import P
from ..saving import WALK
from ..shapes import Shapes, Inst, Atom, K, GenV, FuncV
from ..models import Model, refs_written
from .common import units

LEAVES = ('an object', 'an object without properties', 'empty attributes', 'attributes', 'an empty list object', 'an object with objects of its own')
KINDS = {'an object': 'Filler', 'an object without properties': 'Filler', 'empty attributes': 'Attributes', 'attributes': 'Attributes', 'an empty list object': 'ParameterList',
         'an object with objects of its own': 'Filler'}


def check(prog, rep, tier):
    rep.rule("For every kind an abstract object graph is built from the effects of its reader (lists with several elements, nested parts, every alternative form of a value) and the traversal is interpreted over it: "
             "on every path the object itself and the object behind each reference field that the writer of the kind emits are delivered, whether the reference is still a stored one or a direct object, and whatever kind the target is.")
    rep.assume("Reference fields of the writer are matched to the graph by their path; lists are represented by three elements.")
    f = None
    for m in prog.all_modules():
        g = prog.resolve_name(m, WALK)
        if isinstance(g, Func):
            f = g
            break
    if f is None:
        rep.unclear(WALK, 'not found')
        return
    s = Shapes(prog)
    s.register_all()
    fc = prog.need_class('AVBFile')
    rs = list(s.runs(lambda: s.instantiate(fc, [], {})))
    roots = [r[1] for r in rs if r[0] == 'ok']
    if not roots:
        rep.unclear('AVBFile', 'cannot be made: %s' % (rs[0][1],))
        return
    root = roots[0]
    t0 = time.time()
    lc = {k: prog.find_class(v) for k, v in KINDS.items()}
    for u in units(prog, rep):
        if u.r is None or u.w is None:
            rep.unclear(u.name, u.crash or 'no effects')
            continue
        wanted = refs_written(u)
        if not wanted:
            continue
        kinds = LEAVES
        covered = set()
        pick = 0
        while True:
            width = 1
            for link in ('stored', 'direct'):
                for leaf in kinds:
                    if time.time() - t0 > 300:
                        rep.unclear(u.name, 'not reached in the time allowed')
                        continue
                    made = []

                    def ref(path, made=made):
                        n = len(made) + 5000
                        o = target(s, root, lc[leaf], leaf, path, n, made)
                        made.append((path, o))
                        if link == 'direct':
                            return o
                        r = s.new(prog.need_class('AVBObjectRef'))
                        r.attrs['root'] = root
                        r.attrs['index'] = K(n)
                        
                        s.raw_setitem(root.attrs['object_cache'], K(n), o)
                        return r
                    m = Model(s, root, u, ref, pick)
                    width = max(width, 1)
                    obj = m.build()
                    obj.attrs['instance_id'] = K(4999)
                    width = m.width
                    for p, o in made:
                        covered.add(p)
                    walk(s, f, u, obj, made, link, leaf, rep)
            pick += 1
            if pick >= width:
                break
        for w in wanted:
            if not any(c == w or c in w for c in covered):
                rep.unclear(u.name, 'reference %s is written but not part of what the reader stores' % w)
            else:
                rep.count('reference fields checked')
    save(prog, rep, f)
    rep.need('reference fields checked', 100)


def target(s, root, c, leaf, path, n, made):
    o = s.new(c)
    o.label = path
    o.attrs['root'] = root
    o.attrs['instance_id'] = K(n)
    if o.kind is None:
        pd = s.new(s.prog.need_class('AVBPropertyData'))
        o.attrs['property_data'] = pd
        if leaf == 'an object':
            s.raw_setitem(pd, K('length'), Atom('int', 'length'))
        if leaf == 'an object with objects of its own':
            a = target(s, root, s.prog.need_class('Attributes'), '', path + '.attributes', n + 100000, made)
            b = target(s, root, c, '', path + ".attributes['x']", n + 200000, made)
            s.raw_setitem(a, K('x'), b)
            s.raw_setitem(a, K('y'), Atom('int', 'y'))
            s.raw_setitem(pd, K('attributes'), a)
            made.append((path + '.attributes', a))
            made.append((path + ".attributes['x']", b))
    elif o.kind == 'list':
        o.attrs['parent'] = K(None)
    elif o.kind == 'dict' and leaf == 'attributes':
        s.raw_setitem(o, K('x'), K(1))
    return o


def walk(s, f, u, obj, made, link, leaf, rep):
    for kind, v, ch in s.runs(lambda: list(s.iterate(s.call(FuncV(f), [obj], {}))), limit=16):
        rep.count('traversals interpreted')
        if kind == 'stop':
            rep.unclear(u.name, 'traversal: %s' % v)
            continue
        if kind == 'raise':
            if s.unknowns:
                rep.unclear(u.name, 'traversal: %s' % v)
            else:
                rep.finding('walk/%s/raises/%s' % (u.name, v.name), 'the traversal of a %s raises %s: %s' % (u.name, v.name, v.text), f.where)
            continue
        if s.unknowns:
            rep.unclear(u.name, 'traversal depends on %s' % s.unknowns[0])
            continue
        got = set(id(x) for x in v)
        if id(obj) not in got:
            rep.finding('walk/%s/self' % u.name, 'the traversal of a %s does not deliver the object itself' % u.name, f.where)
        for p, o in made:
            if id(o) not in got:
                rep.finding('walk/%s/%s' % (u.name, p), 'the traversal of a %s does not reach the object referenced by %s (%s reference to %s)' % (u.name, p, link, leaf), f.where)
        for x in v:
            if not (isinstance(x, Inst) and x.cls is not None):
                rep.finding('walk/%s/other' % u.name, 'the traversal of a %s delivers %r, which is not an object' % (u.name, x), f.where)


def save(prog, rep, f):
    """the save starts the traversal at the top object"""
    import ast
    n = 0
    for g in prog.functions():
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and prog.resolve_expr(g.module, c.func) is f and g is not f:
                n += 1
                a = c.args[0] if c.args else None
                if g.cls is not None and g.cls.name == 'AVBFile':
                    ch = chain(a)
                    if ch is None:
                        rep.unclear(g.qual, 'start of the traversal')
                    elif ch != ['self', 'content']:
                        rep.finding('save/start', 'the save collects what is reachable from %s, not from the top object' % '.'.join(ch), '%s:%d' % (g.module.rel, c.lineno))
                    else:
                        rep.count('save starts checked')
    rep.count('uses of the traversal', n)


def chain(a):
    import ast
    out = []
    while isinstance(a, ast.Attribute):
        out.append(a.attr)
        a = a.value
    if isinstance(a, ast.Name):
        return list(reversed(out + [a.id])) if a.id == 'self' else None
    return None
