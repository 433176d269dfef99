"""Typestate of saving: shared by C14, C16 and C21.

AVBFile.write (whatever it calls is inlined) is walked with a state per tree object
that is being saved; see Saver.  Numbers are followed as offsets: the k-th record gets
the number k, whichever counter (the file's, a local one, the size of the mapping)
produces it."""
import ast
from collections import namedtuple
from .flow import Flow, show
from .load import Func
from .loading import contains, strip, is_stream

FIELDS = [
    ('owner', None),      # None | 'ok' | 'bad'     ownership of the current object
    ('dup', None),        # None | 'new' | 'seen'   was it looked up among the saved ones
    ('by', None),         # where it was looked up: 'map' or the local set
    ('noted', False),     # it was entered there
    ('ctr', ()),          # (counter, start, advances for this object); start None: value from before this save
    ('mapped', None),     # None | offset of its number in the mapping (1 is right) | '?'
    ('rec', False),       # its record has been made
    ('put', False),       # it went into a collection that is saved later
    ('esc', False),       # it went somewhere that is not understood
    ('fresh0', False),    # the mapping starts from nothing in this save
    ('opened', False),    # the target has been opened for writing
    ('count', None),      # None | n | '?'          times the count was stored at the reserved place
    ('inl', False),       # inside a pass of a loop over the objects
    ('every', False),     # every object this loop has passed was found to be of this file
    ('known', False),     # a whole earlier loop over the objects established that
    ('colls', ()),        # (collection, owner, dup) of the objects in it
    ('lost', None),       # 'foreign' | 'own'       an object was passed over
]
S = namedtuple('S', [n for n, _ in FIELDS])
ADDERS = ('append', 'add', 'appendleft')

WALK = 'walk_references'


class Saver(Flow):
    START = S(*[v for _, v in FIELDS])

    def __init__(self, prog, func, cls):
        self.findings = []       # (rule, key, text, where)
        self.unclear = []
        self.counts = {}
        self.func = func
        a = [x.arg for x in func.node.args.args]
        self.path = ('param', a[1]) if len(a) > 1 else None
        self.collections = set()
        self.used = set()        # counters that numbers or the count come from
        self.late = []           # findings that need the loop to have been recognised
        self.steps = []          # (counter, advances, ev) at the end of a written object
        super().__init__(prog, self.on, opaque=self.op)
        self.out = self.run(func, {self.START}, cls=cls)
        self.ending()

    def op(self, ev):
        t = ev.target
        if ev.kind == 'call' and (t[0] == 'func' and t[1] == WALK or t[0] == 'attr' and t[2] in ('write_u32', 'write_header', WALK)):
            return True
        return ev.kind == 'call' and ev.callee is not None and ev.callee.module.name.endswith('ioctx')

    def tick(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, rule, key, text, ev):
        x = (rule, key, text, ev.where if ev is not None else self.func.where)
        if x not in self.findings:
            self.findings.append(x)

    def doubt(self, text):
        if (self.func.qual, text) not in self.unclear:
            self.unclear.append((self.func.qual, text))

    # -- recognisers ------------------------------------------------------------
    def is_walk(self, d):
        return d[0] == 'call' and (d[1][0] == 'func' and d[1][1] == WALK or d[1][0] == 'attr' and d[1][2] == WALK)

    def objects(self, d):
        """an iterable of objects of the tree"""
        return contains(d, self.is_walk) or contains(d, lambda x: x in self.collections)

    def is_obj(self, d):
        d = strip(d)
        if d[0] == 'item' and d[2] == 1 and d[1][0] == 'elem' and strip(d[1][1])[:2] == ('call', ('builtin', 'enumerate')):
            d = d[1]
        return d[0] == 'elem' and self.objects(d[1])

    def is_map(self, d):
        d = strip(d)
        return d[0] == 'attr' and d[2] == 'ref_mapping'

    def is_id(self, d):
        d = strip(d)
        return d[0] == 'attr' and d[2] == 'instance_id' and self.is_obj(d[1])

    def kind(self, d):
        return 'obj' if self.is_obj(d) else 'id' if self.is_id(d) else 'identity' if d[0] == 'call' and d[1] == ('builtin', 'id') and d[2] and self.is_obj(d[2][0]) else None

    def is_record(self, ev):
        t = ev.target
        return ev.kind == 'call' and t[0] == 'attr' and t[2] == 'write' and len(ev.args) == 1 and is_stream(ev.args[0]) and not is_stream(t[1])

    def opens_target(self, ev):
        if ev.kind != 'call':
            return False
        nm = str(show(ev.target)).split('.')[-1]
        if nm != 'open' or not ev.args:
            return False
        mode = ev.args[1] if len(ev.args) > 1 else ev.kw.get('mode', ('const', 'r'))
        if mode[0] == 'const' and not any(c in str(mode[1]) for c in 'wax+'):
            return False
        return strip(ev.args[0]) == self.path

    # -- numbers -----------------------------------------------------------------
    def counter(self, d):
        """name of the counter d is"""
        d = strip(d)
        if d[0] == 'attr' and d[2] == 'next_chunk_id':
            return '#'
        if d[0] == 'ctr':
            return d[1]
        return None

    def num(self, st, d):
        """d as an offset from the number of records made before the current object; None: not a number"""
        d = strip(d)
        if d[0] == 'num':
            return d[1]
        k = self.counter(d)
        if k is not None:
            self.used.add(k)
            for c, start, adv in st.ctr:
                if c == k:
                    return (start or 0) + adv
            return 0
        if d[0] == 'call' and d[1] == ('builtin', 'len') and len(d[2]) == 1 and self.is_map(d[2][0]):
            return 0 if st.mapped is None else 1
        if d[0] == 'bin' and d[1] in ('Add', 'Sub'):
            for a, b in ((d[2], d[3]), (d[3], d[2])):
                if b[0] == 'const' and isinstance(b[1], int) and (d[1] == 'Add' or b is d[3]):
                    n = self.num(st, a)
                    if n is not None:
                        return n + b[1] if d[1] == 'Add' else n - b[1]
        if d[0] == 'item' and strip(d[1])[0] == 'elem' and d[2] == 0:
            e = strip(strip(d[1])[1])
            if e[:2] == ('call', ('builtin', 'enumerate')) and False:
                return None
        return None

    def keep(self, st, d):
        n = self.num(st, d) if strip(d)[0] in ('attr', 'bin', 'ctr', 'call') else None
        return ('num', n) if n is not None else d

    def changed(self, name, op, old, v):
        w = strip(old)
        if op == 'Add' and v[0] == 'const' and isinstance(v[1], int) and (w[0] in ('ctr', 'local') or w[0] == 'const' and isinstance(w[1], int)):
            return ('ctr', name)
        return Flow.changed(self, name, op, old, v)

    def advance(self, st, key, by, start=None):
        c = {k: (s, a) for k, s, a in st.ctr}
        s, a = c.get(key, (start, 0))
        c[key] = (s, max(-1, min(2, a + by)))
        return st._replace(ctr=tuple(sorted((k,) + v for k, v in c.items())))

    def set_counter(self, st, key, start, adv=0):
        c = {k: (s, a) for k, s, a in st.ctr}
        c[key] = (start, adv)
        return st._replace(ctr=tuple(sorted((k,) + v for k, v in c.items())))

    def quiet_comp(self, fr, n):
        """a look at all objects, which is judged where its outcome is tested"""
        if not any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'type', 'id', 'str')) for g in [n] for x in ast.walk(g)
                   if not any(x is y for c in n.generators for y in ast.walk(c.iter))):
            return True
        return False

    def on(self, st, ev):
        t = ev.target
        if ev.kind == 'iter' and self.objects(t):
            self.tick('save loops')
            if st.opened:
                self.note('C21', 'opened-early', 'the file to be replaced is opened for writing before the tree has been walked, so a failing save destroys it', ev)
            if contains(t, lambda d: d[0] == 'slice'):
                self.doubt('which of the objects a loop goes through is not visible')
            if isinstance(ev.node, ast.For):
                if st.inl and st.owner == 'bad':
                    st = st._replace(lost='foreign')
                return [st._replace(known=st.known or st.every, every=True, inl=False)]
        if ev.kind in ('store', 'loopend') and (ev.kind == 'loopend' or t[0] == 'loopvar') and self.objects(t if ev.kind == 'loopend' else t[1]):
            st = self.iteration_end(st, ev)
            st = st._replace(every=st.every and not (st.inl and st.owner != 'ok'), inl=ev.kind == 'store')
            new = st._replace(owner='ok' if st.known else None, dup=None, by=None, noted=False, mapped=None, rec=False, put=False, esc=False,
                              ctr=tuple((k, s, 0) for k, s, a in st.ctr))
            src = t if ev.kind == 'loopend' else t[1]
            if ev.kind == 'store' and not contains(src, self.is_walk) and not any(contains(src, lambda x: x == c[0]) for c in st.colls):
                return []         # nothing was put into it
            for c, owner, dup in st.colls:
                if contains(src, lambda x: x == c):
                    new = new._replace(owner='ok' if owner == 'ok' or st.known else owner, dup=dup, by='map', noted=True)
            if ev.kind == 'loopend':
                new = new._replace(owner=None, dup=None, by=None)
            return [new]
        if ev.kind == 'store':
            if t[0] == 'local' and ev.value is not None and ev.value[0] == 'const' and isinstance(ev.value[1], int) and not isinstance(ev.value[1], bool):
                return [self.set_counter(st, t[1], ev.value[1])]
            if self.is_map(t):
                return [st._replace(fresh0=True)] if not st.rec else None
            if self.counter(t) == '#':
                v = strip(ev.value)
                if v[0] == 'const' and isinstance(v[1], int):
                    return [self.set_counter(st, '#', v[1])]
                n = self.num(st, v)
                if n is not None:
                    c = {k: (s, a) for k, s, a in st.ctr}
                    s, a = c.get('#', (None, 0))
                    if not st.inl:
                        return [self.set_counter(st, '#', n - 0)]
                    return [self.set_counter(st, '#', s, max(-1, min(2, n - (s or 0))))]
                if contains(v, lambda d: self.counter(d) == '#'):
                    self.note('C14', 'counter-step', 'the record number changes by %s instead of by one' % show(v), ev)
                    return None
                self.doubt('what the record number becomes is not visible (%s)' % show(v))
                return [self.set_counter(st, '#', 0)]
            if t[0] == 'idx' and self.is_map(t[1]):
                return [self.mapping(st, t[2], ev.value, ev)]
            if ev.value is not None and t[0] in ('attr', 'idx') and contains(ev.value, lambda d: self.is_obj(d)) and st.inl:
                return [st._replace(esc=True)]
        if ev.kind == 'aug':
            key = self.counter(t) or (t[1] if t[0] == 'local' else None)
            if key is not None:
                if ev.value[0] == 'const' and isinstance(ev.value[1], int):
                    by = ev.value[1] if isinstance(ev.node.op, ast.Add) else -ev.value[1] if isinstance(ev.node.op, ast.Sub) else None
                    if by is not None:
                        if by != 1 and key == '#':
                            self.note('C14', 'counter-step', 'the record number does not go up by one per record', ev)
                        return [self.advance(st, key, by)]
                if key == '#':
                    self.doubt('how the record number changes is not visible')
            return None
        if ev.kind == 'test':
            return self.tested(st, ev)
        if ev.kind == 'call':
            return self.called(st, ev)
        return None

    def tested(self, st, ev):
        s = strip(ev.target)
        for c, owner, dup in st.colls:
            if s == strip(c) or s[0] == 'call' and s[1] == ('builtin', 'len') and s[2] and strip(s[2][0]) == strip(c):
                # something was put into it
                return None if ev.truth else []
        if s in {strip(c) for c in self.collections}:
            return None if not ev.truth else []
        if s[0] != 'cmp':
            return None
        op, a, b = s[1], strip(s[2]), strip(s[3])
        # ownership
        for x, y in ((a, b), (b, a)):
            if op in ('Is', 'Eq', 'IsNot', 'NotEq') and self.owner_of(x, y):
                same = (op in ('Is', 'Eq')) == ev.truth
                if st.owner == 'ok' and not same:
                    return []
                if st.owner == 'bad' and same:
                    return []
                return [st._replace(owner='ok' if same else 'bad')]

        def looked(seen, by):
            if st.dup is not None and st.by == by and not st.noted and st.mapped is None:
                return [] if (st.dup == 'seen') != seen else None
            return [st._replace(dup='seen' if seen else 'new', by=by)]
        if op in ('In', 'NotIn') and self.is_map(b):
            if self.is_id(a):
                return looked((op == 'In') == ev.truth, 'map')
            if a[0] == 'attr' and self.is_obj(a[1]) and a[2] != 'instance_id':
                self.note('C14', 'dup-key', 'whether an object was saved already is looked up by its %s instead of its id' % a[2], ev)
        if op in ('In', 'NotIn') and (self.is_obj(a) or self.is_id(a) or a[0] == 'call' and a[1] == ('builtin', 'id') and a[2] and self.is_obj(a[2][0])) \
                and s[3][0] in ('local', 'attr', 'call'):
            return looked((op == 'In') == ev.truth, (s[3], self.kind(a)))
        # ref_mapping.get(id) is not None, ref_mapping.setdefault(id, number) == number
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and x[1][0] == 'attr' and self.is_map(x[1][1]) and x[2] and self.is_id(x[2][0]):
                if x[1][2] == 'get' and y == ('const', None):
                    return looked((op in ('IsNot', 'NotEq')) == ev.truth, 'map')
                if x[1][2] == 'setdefault' and op in ('Eq', 'NotEq', 'Is', 'IsNot') and len(x[2]) == 2 and strip(x[2][1]) == y:
                    new = (op in ('Eq', 'Is')) == ev.truth
                    return [st._replace(dup='new' if new else 'seen', by='map', mapped=st.mapped if new else None)]
        return None

    def called(self, st, ev):
        t = ev.target
        if self.opens_target(ev):
            self.tick('target opened')
            return [st._replace(opened=True)]
        if self.is_record(ev):
            return [self.record(st, ev)]
        if st.opened and (t[0] == 'attr' and t[2] in ('write_header',)):
            self.note('C21', 'opened-early', 'the file to be replaced is opened for writing before the header has been made, so a failing save destroys it', ev)
        if t[0] == 'attr' and t[2] == 'clear' and self.is_map(t[1]):
            return [st._replace(fresh0=True)]
        if t[0] == 'attr' and t[2] in ('setdefault', '__setitem__') and self.is_map(t[1]) and len(ev.args) == 2:
            return [self.mapping(st, ev.args[0], ev.args[1], ev)]
        if t[0] == 'attr' and t[2] == 'seek' and ev.args:
            if contains(ev.args[0], lambda d: d[0] == 'call' and d[1][0] == 'attr' and d[1][2] == 'write_header'):
                return [st._replace(count=0)]
            return None
        if t[0] == 'attr' and t[2] == 'write_u32' and len(ev.args) == 2 and isinstance(st.count, int):
            v = strip(ev.args[1])
            n = self.num(st, v)
            if n == 0:
                return [st._replace(count=min(3, st.count + 1))]
            if v[0] == 'const' or n is not None:
                self.late.append(('C14', 'count-value', 'the header gets %s instead of the number of records' % show(v), ev))
                return [st._replace(count=min(3, st.count + 1))]
            return [st._replace(count='?')]
        if t[0] == 'attr' and t[2] in ADDERS and len(ev.args) == 1:
            a = strip(ev.args[0])
            if st.by is not None and st.by == (t[1], self.kind(a)):
                st = st._replace(noted=True)
                if not self.is_obj(a):
                    return [st]
            if self.is_obj(a) and t[1][0] == 'local' and (len(t[1]) > 2 and strip(t[1])[0] in ('seq', 'call') or len(t[1]) == 2):
                if t[2] == 'add' and st.by == (t[1], 'obj'):
                    return [st]           # the set of objects seen
                self.collections.add(t[1])
                owner, dup = st.owner, st.dup if st.noted or st.mapped is not None else None
                c = {k: (o, d) for k, o, d in st.colls}
                if t[1] in c:
                    o, d = c[t[1]]
                    owner = owner if o == owner else 'bad' if 'bad' in (o, owner) else None
                    dup = dup if d == dup else None
                c[t[1]] = (owner, dup)
                return [st._replace(put=True, colls=tuple(sorted(((k,) + v for k, v in c.items()), key=str)))]
        if st.inl and ev.callee is None and t[0] != 'builtin' and any(contains(a, self.is_obj) and not self.is_id(a) and not is_stream(a) for a in ev.args) \
                and not (t[0] == 'attr' and t[2] in ('format', 'get')):
            return [st._replace(esc=True)]
        return None

    def owner_of(self, x, y):
        """x is something of the object's file, y the same thing of this file"""
        if x[0] == 'attr' and x[2] == 'root' and self.is_obj(x[1]) and y == ('self',):
            return True
        if x[0] == 'attr' and x[2] == 'octx' and x[1][0] == 'attr' and x[1][2] == 'root' and self.is_obj(x[1][1]):
            return True
        return False

    def mapping(self, st, key, value, ev):
        v = strip(value)
        if not self.is_id(key):
            k = strip(key)
            if k[0] == 'attr' and self.is_obj(k[1]) or k[0] == 'const':
                self.note('C14', 'map-key', 'the record number is stored under %s instead of the id of the object' % show(k), ev)
            return st._replace(mapped='?')
        n = self.num(st, v)
        if n is not None:
            return st._replace(mapped=n)
        if v[0] == 'attr' and v[2] == 'instance_id' or v[0] == 'const' and not isinstance(getattr(ev.node, 'value', None), ast.Name):
            self.note('C14', 'map-value', 'an object is given %s instead of the number of its record' % show(v), ev)
            return st._replace(mapped=1)
        return st._replace(mapped='?')

    def record(self, st, ev):
        self.tick('record writes checked')
        obj = strip(ev.target[1])
        if not self.is_obj(obj):
            self.doubt('which object is written is not visible (%s)' % show(obj))
            return st._replace(rec=True)
        if st.owner is None:
            self.note('C16', 'no-owner-test', 'a record is written for an object without checking that it belongs to this file', ev)
        elif st.owner == 'bad':
            self.note('C16', 'owner-ignored', 'a record is written for an object that was found to belong to another file', ev)
        if st.dup is None:
            self.note('C14', 'no-seen-test', 'an object is written without checking whether it was written already, so a shared object is stored twice', ev)
        elif st.dup == 'seen':
            self.note('C14', 'seen-ignored', 'an object that was already written is written again', ev)
        if st.rec:
            self.note('C14', 'twice', 'the record of one object is written twice', ev)
        if not st.fresh0:
            self.note('C14', 'stale-map', 'a second save still finds the objects of the first one in the mapping and leaves them out', ev)
        if '#' in self.used and not any(k == '#' and s is not None for k, s, a in st.ctr):
            self.note('C14', 'stale-counter', 'a second save goes on with the record numbers of the first one', ev)
        if st.opened:
            self.note('C21', 'opened-early', 'the file to be replaced is opened for writing before all objects have been turned into records, so a failing save destroys it', ev)
        return st._replace(rec=True)

    def iteration_end(self, st, ev):
        if not st.inl:
            return st
        adv = {k: a for k, s, a in st.ctr}
        if st.rec:
            self.tick('iteration exits checked')
            if st.mapped is None:
                self.note('C14', 'not-mapped', 'an object is written but its record number is not remembered, so nothing can refer to it', ev)
            elif st.mapped == '?':
                self.doubt('how the record number is remembered is not understood')
            elif st.mapped < 1:
                self.note('C14', 'number-off', 'an object is remembered under the number of the record before it', ev)
            elif st.mapped > 1:
                self.note('C14', 'number-off', 'an object is remembered under the number of the record after it', ev)
            for k in set(adv) | {'#'}:
                self.steps.append((k, adv.get(k, 0), ev))
            if st.dup == 'new' and st.by != 'map' and not st.noted:
                self.note('C14', 'not-noted', 'an object that is written is not entered among those that were written', ev)
        elif st.dup == 'seen':
            self.tick('iteration exits checked')
            if st.owner == 'bad':
                return st._replace(lost='foreign')
            if st.owner != 'ok':
                self.note('C16', 'skipped-unchecked', 'an object whose id was saved already is skipped without checking that it belongs to this file, '
                          'so a reference to an object of another file silently becomes one to the own object with that id', ev)
            for k, a in adv.items():
                if a:
                    self.steps.append((k, 'skipped', ev))
        elif st.put:
            self.tick('iteration exits checked')
        elif st.dup == 'new' or st.owner == 'bad' or st.mapped is not None:
            self.tick('iteration exits checked')
            if st.esc:
                self.doubt('where an object of the tree goes is not visible')
            elif st.mapped is None or st.owner == 'bad':
                return st._replace(lost='foreign' if st.owner == 'bad' else 'own')
            else:
                self.numbered = True
                self.doubt('an object gets its number apart from its record')
        return st

    def ending(self):
        for x in self.late if self.counts.get('iteration exits checked') else ():
            self.note(*x)
        for k, a, ev in self.steps:
            if k not in self.used:
                continue
            if a == 'skipped':
                self.note('C14', 'advanced-skipped', 'the record number is advanced for an object that is not written', ev)
            elif a < 1:
                self.note('C14', 'not-advanced', 'the record number is not advanced for a written object', ev)
            elif a > 1:
                self.note('C14', 'advanced-twice', 'the record number is advanced more than once for one record', ev)
        for st in self.out.n | self.out.ret:
            if st.lost == 'foreign' or st.inl and st.owner == 'bad' and not st.rec:
                self.note('C16', 'foreign-skipped', 'an object of another file is left out of the save instead of failing it', None)
            elif st.lost == 'own' or st.inl and st.dup == 'new' and not st.rec and not st.put:
                self.note('C14', 'left-out', 'an object of the tree is passed over without writing it', None)
            elif st.inl and st.dup == 'seen' and not st.rec and not st.put:
                self.note('C14', 'stopped', 'the save stops at an object that was written already, and leaves out the ones after it', None)
        if self.counts.get('record writes checked', 0) and not self.counts.get('iteration exits checked'):
            self.doubt('no loop over the objects that writes records was recognised')


def savers(prog):
    fc = prog.need_class('AVBFile')
    out = []
    f = fc.find_method('write')
    if isinstance(f, Func):
        out.append(Saver(prog, f, fc))
    return out


def report(prog, rep, rule):
    """the savers, with the findings of one rule reported"""
    out = savers(prog)
    for s in out:
        for k, v in s.counts.items():
            rep.count(k, v)
        for r, key, text, where in s.findings:
            if r == rule:
                rep.finding('save/%s' % key, text, where)
        for u, t in s.unclear:
            rep.unclear(u, t)
        if not s.counts.get('record writes checked') or not s.counts.get('iteration exits checked'):
            rep.unclear(s.func.qual, 'no loop over the objects that writes records was recognised')
    return out
