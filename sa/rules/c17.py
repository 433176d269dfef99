"""C17: a copied object is complete and independent."""
import time
from ..load import Func
from ..shapes import Inst, Atom, K, Unknown, FuncV, reach, children
from .common import units
from .shapeutil import interp, empty_file, stored_ref, plain, models

LEAVES = ('Filler', 'Attributes', 'ParameterList')


def check(prog, rep, tier):
    rep.rule("For every kind an abstract object graph is built from the effects of its reader (lists with several elements, nested parts, every alternative form of a value, references stored and direct) and the copy method is interpreted on it with another file as target: "
             "on every path the result is of the same class, has the same properties and elements with equal values, belongs with all its parts to the target file, has its tracked lists owned by parts of the copy, shares no mutable node with the original, and the original is not changed.")
    rep.assume("Properties have the forms a reader can leave in them; copying is interpreted over summary values (constants, opaque values with identity), lists have two elements.")
    s = interp(prog)
    a = empty_file(prog, s, rep)
    b = empty_file(prog, s, rep)
    if a is None or b is None:
        return
    done = set()
    t0 = time.time()
    for u in units(prog, rep):
        if u.r is None:
            rep.unclear(u.name, u.crash or 'no effects')
            continue
        if u.cls in done:
            continue
        done.add(u.cls)
        cp = u.cls.find_method('copy')
        if not isinstance(cp, Func):
            rep.finding('copy/%s/none' % u.name, '%s has no copy method of its own kind' % u.name, u.cls.where)
            continue
        for link in ('stored', 'direct'):
            for leaf in LEAVES:
                if time.time() - t0 > 300:
                    rep.unclear(u.name, 'not reached in the time allowed')
                    continue
                made = []

                def ref(path):
                    n = 6000 + len(made)
                    o = plain(prog, s, a, leaf, n, [('length', Atom('int', 'length'))] if leaf == 'Filler' else ())
                    if o.kind == 'dict':
                        s.raw_setitem(o, K('note'), Atom('bytearray', path + '{note}', True))
                        s.raw_setitem(o, K('none'), K(None))
                    made.append(o)
                    return o if link == 'direct' else stored_ref(prog, s, a, n, o)
                for obj, m in models(prog, s, a, u, ref):
                    obj.attrs['instance_id'] = K(5999)
                    one(prog, s, rep, u, cp, obj, a, b)
        rep.count('kinds copied')
    rep.need('kinds copied', 40)


def one(prog, s, rep, u, cp, obj, a, b):
    nodes = reach(obj, skip=(a,))
    base = u.name

    def act():
        return s.call(FuncV(cp, obj, dyn=u.cls), [b], {})
    for kind, v, ch in s.runs(act, limit=16):
        rep.count('copies interpreted')
        if kind == 'stop' or s.unknowns and kind == 'raise':
            rep.unclear(base, 'copy: %s' % v)
            continue
        if kind == 'raise':
            rep.finding('copy/%s/raises/%s' % (base, v.name), 'copying a %s raises %s: %s' % (base, v.name, v.text), cp.where)
            continue
        unk = list(s.unknowns)
        c = Cmp(s, rep, base, cp, a, b, unk)
        c.compare(obj, v, 'self')
        got = reach(v, skip=(b,))
        for k, (x, p) in got.items():
            if k in nodes and not c.vague:
                rep.finding('copy/%s/shared/%s' % (base, nodes[k][1].replace('.property_data', '') or 'self'),
                            'the copy of a %s shares %s with the original' % (base, nodes[k][1] or 'itself'), cp.where)
            if isinstance(x, Inst) and x is a:
                rep.finding('copy/%s/root/%s' % (base, p), 'the copy of a %s belongs to the file of the original' % base, cp.where)
        for ev in s.events:
            if ev[0] in ('setattr', 'mutate') and isinstance(ev[1], Inst) and ('i', ev[1].id) in nodes and ev[1] is not a:
                rep.finding('copy/%s/changes-original/%s' % (base, nodes[('i', ev[1].id)][1]), 'copying a %s changes the original (%s)' % (base, nodes[('i', ev[1].id)][1] or 'itself'), cp.where)
        if unk:
            rep.unclear(base, 'copy depends on %s' % unk[0])


class Cmp(object):
    def __init__(self, s, rep, base, cp, a, b, unk):
        self.s, self.rep, self.base, self.cp, self.a, self.b = s, rep, base, cp, a, b
        self.vague = bool(unk)
        self.seen = {}

    def bad(self, key, text):
        if not self.vague:
            self.rep.finding('copy/%s/%s' % (self.base, key), text, self.cp.where)

    def compare(self, x, y, path):
        s = self.s
        if isinstance(x, Inst) and x.cls is not None and x.cls.name == 'AVBObjectRef':
            n = x.attrs['index'].v
            o = self.a.attrs['object_cache'].dct.get(s.key(K(n)))
            x = o[1]
            if isinstance(y, Inst) and y.cls is not None and y.cls.name == 'AVBObjectRef':
                return self.bad('reference/%s' % path, 'the copy of a %s holds a stored reference in %s, whose number means another object in the target file' % (self.base, path))
        if isinstance(y, Unknown):
            self.vague = True
            return self.rep.unclear(self.base, 'copied value of %s: %s' % (path, y))
        if isinstance(x, Inst):
            if not isinstance(y, Inst):
                return self.bad('kind/%s' % path, 'the copy of a %s has %r in %s where the original has %r' % (self.base, y, path, x))
            if (x.cls, x.kind) != (y.cls, y.kind):
                return self.bad('kind/%s' % path, 'the copy of a %s has %s in %s where the original has %s' % (self.base, name(y), path, name(x)))
            if x.id in self.seen:
                return
            self.seen[x.id] = y
            if x.lst is not None:
                if len(x.lst) != len(y.lst):
                    self.bad('length/%s' % path, 'the copy of a %s has %d elements in %s where the original has %d' % (self.base, len(y.lst), path, len(x.lst)))
                else:
                    for i, (p, q) in enumerate(zip(x.lst, y.lst)):
                        self.compare(p, q, path + '[*]')
            if x.dct is not None:
                for k in x.dct:
                    if k not in y.dct:
                        self.bad('missing/%s/%r' % (path, x.dct[k][0]), 'the copy of a %s lacks %r of %s' % (self.base, x.dct[k][0], path))
                    else:
                        self.compare(x.dct[k][1], y.dct[k][1], '%s{%s}' % (path, x.dct[k][0]))
                for k in y.dct:
                    if k not in x.dct:
                        self.bad('extra/%s/%r' % (path, y.dct[k][0]), 'the copy of a %s has %r in %s, which the original does not have' % (self.base, y.dct[k][0], path))
                if list(x.dct) != list(y.dct) and set(x.dct) == set(y.dct):
                    self.bad('order/%s' % path, 'the copy of a %s has the entries of %s in another order' % (self.base, path))
            for k in x.attrs:
                if k in ('instance_id',):
                    if k in y.attrs and y.attrs[k] is x.attrs[k] and self.b is not self.a:
                        self.bad('id/%s' % path, 'the copy of a %s takes over the id of the original in %s' % (self.base, path))
                    continue
                if k == 'root':
                    if y.attrs.get(k) is self.a:
                        self.bad('root/%s' % path, 'in the copy of a %s, %s belongs to the file of the original' % (self.base, path))
                    elif y.attrs.get(k) is not self.b:
                        self.bad('root/%s' % path, 'in the copy of a %s, %s does not belong to the target file' % (self.base, path))
                    continue
                if k == 'parent':
                    p, q = x.attrs[k], y.attrs.get(k)
                    if isinstance(p, Inst) and (not isinstance(q, Inst) or q is not self.seen.get(p.id)):
                        self.bad('parent/%s' % path, 'in the copy of a %s, the list %s is not owned by the copy, so changes made to it are not noticed' % (self.base, path))
                    continue
                if k not in y.attrs:
                    if k == 'property_data' or k in ('bytes_le',):
                        self.bad('missing/%s.%s' % (path, k), 'the copy of a %s lacks %s.%s' % (self.base, path, k))
                    continue
                if k.startswith('_'):
                    continue            # caches
                self.compare(x.attrs[k], y.attrs[k], path if k == 'property_data' else path + '.' + k)
            if x.cls is not None and isinstance(x.cls.find_assign('class_id'), tuple) and 'instance_id' in x.attrs and 'instance_id' not in y.attrs and path == 'self':
                self.bad('noid/%s' % path, 'the copy of a %s gets no id in the target file' % self.base)
            return
        if isinstance(x, Atom):
            if not isinstance(y, Atom):
                if isinstance(y, Unknown) or isinstance(y, K):
                    return self.bad('value/%s' % path, 'the copy of a %s has %r in %s instead of the value of the original' % (self.base, y, path))
                return self.bad('kind/%s' % path, 'the copy of a %s has %r in %s where the original has %r' % (self.base, y, path, x))
            if y.origin() is not x.origin():
                if y.kind == '?' or x.kind == '?':
                    self.vague = True
                    return self.rep.unclear(self.base, 'copied value of %s' % path)
                return self.bad('value/%s' % path, 'the copy of a %s has another value in %s' % (self.base, path))
            if y.kind != x.kind:
                return self.bad('kind/%s' % path, 'the copy of a %s has a %s in %s where the original has a %s' % (self.base, y.kind, path, x.kind))
            return
        if isinstance(x, K):
            if isinstance(y, K) and y.v == x.v and type(y.v) is type(x.v):
                return
            return self.bad('value/%s' % path, 'the copy of a %s has %r in %s instead of %r' % (self.base, y, path, x))


def name(x):
    return x.cls.name if x.cls is not None else x.kind
