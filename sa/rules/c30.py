"""C30: lists and mappings of objects give what a list and a mapping give, with objects for references."""
import ast
import itertools
from ..load import Func
from ..shapes import Inst, K, NONE, Env, GenV, PyRaise
from .c24 import World
from .shapeutil import interp, stored_ref


def check(prog, rep, tier):
    top = 4 if tier == 'thorough' else 3
    rep.rule("Every operation on a reference list is interpreted for every list of up to %d entries, each an object, a stored reference, a bare index of one or a null reference, and what it returns, raises and leaves in the list is compared with what the same operation "
             "does on a plain list of the objects themselves. The same for attributes and the properties of an object against an ordered mapping. "
             "The element operations run over positions on, inside and outside of both ends." % top)
    rep.assume("Comparing whole lists with ==, ordering and + are not part of the property: they work on what is stored.")
    s = interp(prog)
    w = World(prog, s, rep)
    if w.root is None:
        return
    cls = prog.find_class('AVBRefList')
    if cls is None:
        return rep.unclear('AVBRefList', 'not found')
    L = Lists(prog, rep, s, w, cls)
    for n in range(top + 1):
        for kinds in itertools.product('ori0' if n < 3 else 'or' if n < 4 else 'r', repeat=n):
            L.all(kinds)
    maps(prog, rep, s, w, L)
    rep.need('list operations interpreted', 300)
    rep.need('mapping operations interpreted', 30)


class Lists(object):
    def __init__(self, prog, rep, s, w, cls):
        self.prog, self.rep, self.s, self.w, self.cls = prog, rep, s, w, cls
        self.module = cls.module
        self.objs = [w.make('Filler', media_kind_id=K(1), length=K(n)) for n in (30, 10, 20, 40, 50)]
        for i, o in enumerate(self.objs):
            o.label = 'o%d' % i
        self.x, self.y = self.objs[3:]
        self.refs = [stored_ref(prog, s, w.root, 900 + i, o) for i, o in enumerate(self.objs)]
        self.null = s.new(prog.need_class('AVBObjectRef'))
        self.null.attrs['root'] = w.root
        self.null.attrs['index'] = K(0)
        for r in self.refs + [self.null]:
            r.label = 'reference'

    def all(self, kinds):
        n = len(kinds)
        real = [None if k == '0' else self.objs[i % 3] for i, k in enumerate(kinds)]
        stored = [{'o': self.objs[i % 3], 'r': self.refs[i % 3], 'i': K(900 + i % 3), '0': self.null}[k] for i, k in enumerate(kinds)]
        x, y = self.x, self.y
        places = range(-n - 1, n + 2)
        go = lambda what, code, f, *a: self.one(kinds, stored, real, what, code, f, *a)
        go('append', 'l.append(x)', lambda l: l.append(x))
        go('extend', 'l.extend([x, y])', lambda l: l.extend([x, y]))
        go('extend', 'l.extend([])', lambda l: None)
        go('append', 'l.append(None)', lambda l: l.append(None))
        go('append', 'l.append(ref)', lambda l: l.append(self.objs[1]))
        go('append', 'l.append(a)', lambda l: l.append(self.objs[0]))
        go('extend', 'l.extend([None, a, x])', lambda l: l.extend([None, self.objs[0], x]))
        go('extend', 'l.extend(e for e in (y, x))', lambda l: l.extend([y, x]))
        go('extend', 'l.extend(list(l))', lambda l: l.extend(list(l)))
        for i in places:
            go('insert', 'l.insert(%d, x)' % i, lambda l: l.insert(i, x))
            go('insert', 'l.insert(%d, None)' % i, lambda l: l.insert(i, None))
            go('[]', 'r = l[%d]' % i, lambda l: l[i])

            def put(l):
                l[i] = x
            go('[]=', 'l[%d] = x' % i, put)

            def drop(l):
                del l[i]
            go('del', 'del l[%d]' % i, drop)
            go('pop', 'r = l.pop(%d)' % i, lambda l: l.pop(i))
        go('pop', 'r = l.pop()', lambda l: l.pop())
        go('clear', 'l.clear()', lambda l: l.clear())
        go('reverse', 'l.reverse()', lambda l: l.reverse())
        go('len', 'r = len(l)', lambda l: len(l))
        go('list', 'r = list(l)', lambda l: list(l))
        go('for', 'r = []\nfor e in l:\n    r.append(e)', lambda l: list(l))
        go('reversed', 'r = list(reversed(l))', lambda l: list(reversed(l)))
        for z, name in ((x, 'x'), (self.objs[0], 'a'), (self.objs[1], 'b')):
            go('remove', 'l.remove(%s)' % name, lambda l: l.remove(z))
            go('in', 'r = %s in l' % name, lambda l: z in l)
            go('index', 'r = l.index(%s)' % name, lambda l: l.index(z))
            go('count', 'r = l.count(%s)' % name, lambda l: l.count(z))
        for sl in ('1:', ':1', ':', '::-1', '1:2', '-1:'):
            c = eval('slice(%s)' % ', '.join(p or 'None' for p in (sl.split(':') if sl != ':' else ['', ''])))
            go('slice', 'r = l[%s]' % sl, lambda l: l[c])

            def cut(l):
                del l[c]
            go('del slice', 'del l[%s]' % sl, cut)
            if sl != '::-1':
                def paste(l):
                    l[c] = [x, y]
                go('slice =', 'l[%s] = [x, y]' % sl, paste)

        def iadd(l):
            l += [x, None]
        go('+=', 'l += [x, None]', iadd)
        for k in (0, 1, 2):
            def imul(l):
                l *= k
            go('*=', 'l *= %d' % k, imul)
        if None not in real:
            size = {id(o): v for o, v in zip(self.objs, (30, 10, 20, 40, 50))}
            for rev in (False, True):
                go('sort', 'l.sort(key=lambda e: e.length%s)' % (', reverse=True' if rev else ''), lambda l: l.sort(key=lambda o: size[id(o)], reverse=rev))

    def one(self, kinds, stored, real, what, code, model):
        m = self.cls.find_method({'[]': '__getitem__', 'slice': '__getitem__', '[]=': '__setitem__', 'slice =': '__setitem__', 'del': '__delitem__', 'del slice': '__delitem__', 'in': '__contains__',
                                  'list': '__iter__', 'for': '__iter__', 'reversed': '__reversed__', '+=': '__iadd__', '*=': '__imul__'}.get(what, what))
        after = list(real)
        try:
            want, exc = model(after), None
        except Exception as e:
            want, exc, after = None, type(e).__name__, list(real)

        def make():
            l = self.s.new(self.cls)
            l.attrs['root'] = self.w.root
            l.attrs['parent'] = NONE
            l.lst = list(stored)
            return l
        names = ', '.join({'o': 'an object', 'r': 'a reference', 'i': 'an index', '0': 'a null reference'}[k] for k in kinds) or 'nothing'
        self.run(what, '%s on a list of %s' % (code.replace('\n', ' '), names), code, make, lambda l: [self.value(e) for e in self.s.iterate(l)], want, exc, after,
                 m.where if isinstance(m, Func) else self.cls.where, 'list', 'AVBRefList')

    def run(self, key, at, code, make, contents, want, exc, after, where, sort, name):
        s, rep = self.s, self.rep
        body = ast.parse(code).body

        def act():
            l = make()
            env = Env(self.module, dict(l=l, x=self.x, y=self.y, a=self.objs[0], b=self.objs[1], ref=self.refs[1]), None)
            raised = None
            try:
                s.block(body, env)
            except PyRaise as e:
                raised = e.name
            if env.vars['l'] is not l:
                return raised, None, None
            return raised, self.value(env.vars.get('r', NONE)), contents(l)
        for kind, v, ch in s.runs(act, limit=16):
            rep.count('%s operations interpreted' % sort)
            if kind != 'ok' or s.unknowns or ch:
                rep.unclear(name, '%s not followed: %s' % (at, v if kind != 'ok' else s.unknowns or ch))
                return
            raised, got, left = v
            if vague(got) or vague(left):
                rep.unclear(name, '%s: result not traced: %s, %s' % (at, got, left))
                return
            if raised != exc:
                rep.finding('%s/raises' % key, '%s %s, a %s %s' % (at, 'raises ' + raised if raised else 'does not raise', sort, 'raises ' + exc if exc else 'does not'), where)
            elif left is None:
                rep.finding('%s/other' % key, '%s leaves another one' % at, where)
            elif exc is None and not same(got, want):
                rep.finding('%s/result' % key, '%s gives %s, not %s' % (at, say(got), say(want)), where)
            elif not same(left, after):
                rep.finding('%s/contents' % key, '%s leaves %s, not %s' % (at, say(left), say(after)), where)

    def value(self, v):
        """the Python value for comparing, a text when it is none"""
        if isinstance(v, K):
            return v.v
        if isinstance(v, GenV):
            return [self.value(e) for e in v.items[v.pos:]]
        if isinstance(v, Inst):
            if v.cls is None and v.kind in ('list', 'tuple'):
                return [self.value(e) for e in v.lst]
            if v.cls is not None and v.cls.name == 'AVBObjectRef':
                return Ref
            return v
        return Vague(v)


class Vague(object):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


def vague(v):
    return isinstance(v, Vague) or isinstance(v, list) and any(vague(e) for e in v)


class Ref(object):
    """a raw reference showing where an object was due"""
    label = 'a raw reference'


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Inst) or isinstance(b, Inst) or a is Ref or b is Ref:
        return a is b
    return a == b and type(a) is type(b)


def say(v):
    if isinstance(v, list):
        return '[%s]' % ', '.join(say(e) for e in v)
    if isinstance(v, Inst) or v is Ref:
        return v.label or v.cls.name
    return repr(v)


def maps(prog, rep, s, w, L):
    """[(class, how one is made, reads one entry)]"""
    x = L.x
    entries = (('one', 'o'), ('two', 'r'), ('three', '0'), ('four', 'k'))
    for cname, ops in (('AVBPropertyData', ('read', 'write')), ('Attributes', ('read', 'write'))):
        cls = prog.find_class(cname)
        if cls is None:
            rep.unclear(cname, 'not found')
            continue
        for n in range(len(entries) + 1):
            part = entries[:n] if n < 3 else entries[4 - n:] if n == 3 else entries
            stored = [(k, {'o': L.objs[0], 'r': L.refs[1], '0': L.null, 'k': K(5)}[f]) for k, f in part]
            real = [(k, {'o': L.objs[0], 'r': L.objs[1], '0': None, 'k': 5}[f]) for k, f in part]

            def make():
                m = s.new(cls)
                m.attrs['root'] = w.root
                m.attrs['instance_id'] = K(800)
                for k, v in stored:
                    s.raw_setitem(m, K(k), v)
                return m

            def contents(m):
                return [[k.v, L.value(s.getitem(m, k))] for k, v in list(m.dct.values())]

            def go(what, code, model):
                after = dict(real)
                try:
                    want, exc = model(after), None
                except Exception as e:
                    want, exc, after = None, type(e).__name__, dict(real)
                f = cls.find_method({'[]': '__getitem__', '[]=': '__setitem__', 'del': '__delitem__', 'in': '__contains__', 'for': '__iter__'}.get(what, what))
                L.run('%s.%s' % (cname, what), '%s on %s holding %s' % (code.replace('\n', ' '), cname, ', '.join(k for k, v in real) or 'nothing'), code, make, contents,
                      want, exc, [[k, v] for k, v in after.items()], f.where if isinstance(f, Func) else cls.where, 'mapping', cname)
            for k in ('one', 'two', 'three', 'four', 'five'):
                go('[]', 'r = l[%r]' % k, lambda d: d[k])
                go('get', 'r = l.get(%r)' % k, lambda d: d.get(k))
                go('get', 'r = l.get(%r, 7)' % k, lambda d: d.get(k, 7))
                go('in', 'r = %r in l' % k, lambda d: k in d)

                def put(d):
                    d[k] = x
                go('[]=', 'l[%r] = x' % k, put)

                def put_ref(d):
                    d[k] = L.objs[1]
                go('[]=', 'l[%r] = ref' % k, put_ref)

                def drop(d):
                    del d[k]
                go('del', 'del l[%r]' % k, drop)
                go('pop', 'r = l.pop(%r)' % k, lambda d: d.pop(k))
                go('pop', 'r = l.pop(%r, 7)' % k, lambda d: d.pop(k, 7))
                if k != 'three':
                    go('setdefault', 'r = l.setdefault(%r, 7)' % k, lambda d: d.setdefault(k, 7))
            go('len', 'r = len(l)', lambda d: len(d))
            go('keys', 'r = list(l.keys())', lambda d: list(d))
            go('for', 'r = list(l)', lambda d: list(d))
            go('items', 'r = [[k, v] for k, v in l.items()]', lambda d: [[k, v] for k, v in d.items()])
            go('values', 'r = list(l.values())', lambda d: list(d.values()))
            go('clear', 'l.clear()', lambda d: d.clear())
            go('popitem', 'r = list(l.popitem())', lambda d: list(d.popitem()))
    # properties of an object
    obj = prog.find_class('AVBObject')
    if obj is None:
        return rep.unclear('AVBObject', 'not found')
    stored = [('effect_id', L.refs[1]), ('name', L.objs[0]), ('length', K(5)), ('precomputed', L.null)]
    real = dict(effect_id=L.objs[1], name=L.objs[0], length=5, precomputed=None)

    def make():
        o = w.make('Filler')
        for k, v in stored:
            s.raw_setitem(o.attrs['property_data'], K(k), v)
        return o

    def contents(o):
        return [[k.v, L.value(s.getitem(o.attrs['property_data'], k))] for k, v in list(o.attrs['property_data'].dct.values())]
    for k in list(real) + ['missing']:
        f = obj.find_method('get')
        L.run('AVBObject.get', 'get(%r, 7)' % k, 'r = l.get(%r, 7)' % k, make, contents, real.get(k, 7), None, [list(p) for p in real.items()], f.where if isinstance(f, Func) else obj.where, 'mapping', 'AVBObject')
        f = obj.find_method('__getattr__')
        L.run('AVBObject.attribute', 'reading %s' % k, 'r = l.%s' % k, make, contents, real.get(k), None if k in real else 'AttributeError', [list(p) for p in real.items()],
              f.where if isinstance(f, Func) else obj.where, 'mapping', 'AVBObject')
