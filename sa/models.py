"""Abstract object graphs of every kind, as its reader leaves them, and as a program makes them."""
from .load import Class
from .pe import P
from .terms import is_c, cv, UNSET
from . import terms as T
from .shapes import Inst, Atom, K, NONE

ATOMS = {'u8': 'int', 's8': 'int', 'u16': 'int', 's16': 'int', 'u32': 'int', 's32': 'int', 'u64': 'int', 's64': 'int', 'exp10': 'float', 'double': 'float', 'float': 'float',
         'string': 'str', 'fourcc': 'bytes', 'bool': 'bool', 'uuid': 'UUID', 'raw_uuid': 'UUID', 'datetime': 'datetime'}


class Model(object):
    """builder for one kind; ref(path) makes the value a reference field gets"""

    def __init__(self, s, root, u, ref, pick=0, reps=3):
        self.s, self.root, self.u, self.ref, self.pick = s, root, u, ref, pick
        self.width = 1
        self.ctx = ()
        self.reps = reps
        self.made = {}
        self.vague = []

    def build(self):
        pe = self.u.r
        return self.obj(pe.self_id, 'self', self.u.cls)

    def prop(self, o, name, v, cls):
        """put v where an assignment of the property would put it"""
        pd = o.attrs.get('property_data')
        if pd is not None and name in self.declared(cls):
            self.s.raw_setitem(pd, K(name), v)
        else:
            o.attrs[name] = v

    def declared(self, cls):
        d = self.s.classattr(cls, 'propertydefs_dict')
        if isinstance(d, Inst) and d.dct is not None:
            return set(k.v for k, v in d.dct.values() if isinstance(k, K))
        return set()

    def obj(self, oid, path, cls=None):
        for i in range(len(self.ctx) + 1):
            k = (oid, self.ctx[:len(self.ctx) - i])
            if k in self.made:
                return self.made[k]
        key = (oid, self.ctx)
        o = self.u.r.heap.get(oid)
        if o is None or o.sym is not None and oid != self.u.r.self_id:
            self.vague.append(path)
            return Atom('?', path, True)
        cls = cls or o.cls
        if o.kind == 'inst':
            n = self.s.new(cls) if cls is not None else Inst(None)
            n.label = path
            self.made[key] = n
            n.attrs['root'] = self.root
            from .load import Func
            if n.kind is None and isinstance(cls.find_method('__setattr__'), Func):
                pdc = self.s.prog.find_class('AVBPropertyData')
                pd = self.s.new(pdc)
                pd.label = path + '.property_data'
                n.attrs['property_data'] = pd
            kw = o.meta.get('kw') or {}
            for k, v in kw.items():
                if k != 'root':
                    n.attrs[k] = self.value(v, path + '.' + k)
            if n.kind == 'list' and 'parent' not in n.attrs:
                n.attrs['parent'] = NONE
            for k in sorted(o.fields):
                x = self.value(o.fields[k], path + '.' + k)
                if x is not None:
                    self.prop(n, k, x, cls)
            if o.meta.get('listlike'):
                self.fill_list(n, o, path)
            if o.meta.get('dictlike'):
                self.fill_dict(n, o, path)
            return n
        n = Inst(None, 'dict' if o.kind == 'dict' else 'list', path)
        self.made[key] = n
        if o.kind == 'dict':
            self.fill_dict(n, o, path)
        else:
            self.fill_list(n, o, path)
        return n

    def fill_list(self, n, o, path):
        for i, x in enumerate(o.items):
            v = self.value(x, '%s[%d]' % (path, i))
            if v is not None:
                n.lst.append(v)
        if o.elem is not None:
            ctx = self.ctx
            for i in range(self.reps):
                self.ctx = ctx + ((path, i),)
                v = self.value(o.elem, path + '[*]')
                if v is not None:
                    n.lst.append(v)
            self.ctx = ctx

    def fill_dict(self, n, o, path):
        i = 0
        for k, v in o.keyed.items():
            if k[0] == 'slice':
                self.vague.append(path)
                continue
            if k[0] == 'dyn':
                # every alternative under its own key
                for v1 in self.alts(v):
                    i += 1
                    x = self.value1(v1, path + '{*}')
                    if x is not None:
                        self.s.raw_setitem(n, K('key%d' % i), x)
            elif is_c(k):
                x = self.value(v, '%s[%r]' % (path, cv(k)))
                if x is not None:
                    self.s.raw_setitem(n, K(cv(k)), x)
            else:
                self.vague.append(path)

    def alts(self, v):
        if v[0] == 'ite':
            return self.alts(v[2]) + self.alts(v[3])
        if v[0] == 'either':
            return self.alts(v[1]) + self.alts(v[2])
        return [v]

    def value(self, v, path):
        a = [x for x in self.alts(v) if x != UNSET]
        if not a:
            return None
        self.width = max(self.width, len(a))
        return self.value1(a[self.pick % len(a)] if self.pick < len(a) else a[0], path)

    def value1(self, v, path):
        if v == UNSET:
            return None
        if v[0] == 'obj':
            return self.obj(v[1], path)
        if v[0] == 'root':
            return self.root
        if is_c(v):
            return K(cv(v))
        if v[0] == 'tup':
            t = Inst(None, 'tuple', path)
            t.lst = [self.value(x, path + '[]') or NONE for x in v[1:]]
            return t
        if v[0] == 'wire':
            n = self.u.r.nodes.get(v[1])
            k = n.kind if n is not None else None
            if k == 'ref':
                return self.ref(path)
            if k == 'mob_id':
                return self.mobid(path)
            if k in ('rect', 'rgb'):
                l = Inst(None, 'list', path)
                l.lst = [Atom('int', path + '[]') for i in range(4 if k == 'rect' else 3)]
                return l
            k = k.split(':')[0] if k else k
            if k in ATOMS:
                return Atom(ATOMS[k], path)
            if k in ('data', 'bytes', 'raw', 'rest'):
                return Atom('bytes', path)
            self.vague.append(path + ' ' + str(k))
            return Atom('?', path, True)
        if v[0] == 'call':
            f = v[1]
            if f == 'bytearray':
                return Atom('bytearray', path, True)
            if f in ('decode', 'str', 'hex'):
                return Atom('str', path)
            if f in ('int', 'float', 'bool', 'bytes'):
                return Atom(f, path)
            if f in ('UUID', 'uuid'):
                return Atom('UUID', path)
            if 'fromtimestamp' in f:
                return Atom('datetime', path)
        if v[0] == 'elem' and v[1][0] in ('wire', 'call'):
            return Atom('int', path)
        if v[0] == 'op' and v[1] in ('==', '!=', '<', '>', '<=', '>='):
            return Atom('bool', path)
        if v[0] in ('cmp', 'boolv', 'not', 'and', 'or', 'truthy'):
            return Atom('bool', path)
        if v[0] in ('op', 'sum'):
            return Atom('int', path)
        self.vague.append(path + ' ' + T.show(v))
        return Atom('?', path, True)

    def mobid(self, path):
        c = self.s.prog.find_class('MobID')
        n = self.s.new(c)
        n.label = path
        n.attrs['bytes_le'] = Atom('bytearray', path + '.bytes_le', True)
        return n


def refs_written(u):
    """paths of the reference fields its writer emits: {shown path}"""
    from .pe import Alt, Loop, ExtLoop

    def walk(l):
        for n in l:
            if isinstance(n, P):
                if n.kind == 'ref':
                    yield n
            elif isinstance(n, Alt):
                for x in walk(n.a):
                    yield x
                for x in walk(n.b):
                    yield x
            elif isinstance(n, Loop):
                for x in walk(n.body):
                    yield x
            elif isinstance(n, ExtLoop):
                for c in n.cases.values():
                    for x in walk(c):
                        yield x
    out = {}
    for n in walk(u.w.out):
        out.setdefault(T.show(n.val), n)
    return out
