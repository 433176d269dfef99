"""C24: mob lookups and the dependency walk."""
import itertools
from ..load import Func
from ..shapes import Inst, Atom, K, NONE, Unknown
from .shapeutil import interp, empty_file, plain


def check(prog, rep, tier):
    n3 = 3
    rep.rule("The dependency walk is interpreted on a bin of %d mobs for every pattern of references among them (references to itself, cycles, several clips for one mob and clips of an unknown mob included) and on longer chains and lattices: "
             "it must end, yield every mob that is reachable once, never the mob asked, and, when there is no cycle, a mob after those it depends on. "
             "The lists of the bin are interpreted with open kinds and usage codes, a clip's mob and track with every match and mismatch of number and media kind, and the lookup by id after every history of two changes of the bin." % n3)
    rep.assume("Mob ids compare and hash by value (C18, C20); the traversal of one mob's own objects is complete (C27).")
    s = interp(prog)
    w = World(prog, s, rep)
    if w.root is None:
        return
    walks(w, rep, tier)
    lists(w, rep)
    clips(w, rep)
    kinds(w, rep)
    histories(w, rep)
    rep.need('dependency walks interpreted', 100)
    rep.need('mob lists interpreted', 4)
    rep.need('clip lookups interpreted', 8)
    rep.need('histories interpreted', 5)


class World(object):
    def __init__(self, prog, s, rep):
        self.prog, self.s = prog, s
        self.n = 100
        self.root = empty_file(prog, s, rep)
        if self.root is None:
            return
        self.fac = self.root.attrs.get('create')
        self.comp = prog.need_class('Composition')
        f = self.comp.find_method('dependant_mobs')
        self.where = f.where if isinstance(f, Func) else self.comp.where

    def id(self, i):
        m = self.s.new(self.prog.need_class('MobID'))
        m.label = 'id %s' % i
        m.hashlabel = ('mob', i)
        m.attrs['bytes_le'] = K(bytes([i % 256] * 32))
        return m

    def make(self, kind_name, **props):
        self.n += 1
        o = plain(self.prog, self.s, self.root, kind_name, self.n, list(props.items()))
        return o

    def list(self, items):
        l = Inst(None, 'list')
        l.lst = list(items)
        return l

    def clip(self, i, **kw):
        p = dict(length=Atom('int', 'length'), media_kind_id=K(1), track_id=K(1), start_time=Atom('int', 'start'))
        p.update(kw)
        if i is not None:
            p['mob_id'] = self.id(i)
        return self.make('SourceClip', **p)

    def track(self, comp, index=1):
        t = self.make('Track')
        if index is not None:
            self.s.raw_setitem(t.attrs['property_data'], K('index'), K(index))
        if comp is not None:
            self.s.raw_setitem(t.attrs['property_data'], K('component'), comp)
        return t

    def mob(self, i, refs, kind=None, usage=None):
        """a mob whose clips name the ids, one track with one clip and one with the others in a sequence"""
        clips = [self.clip(j) for j in refs]
        tracks = []
        if clips:
            tracks.append(self.track(clips[0]))
        seq = self.make('Sequence', components=self.reflist(clips[1:] + [self.make('Filler', media_kind_id=K(1))]), media_kind_id=K(1))
        tracks.append(self.track(seq, 2))
        tracks.append(self.track(None, 3))
        return self.make('Composition', mob_id=self.id(i), tracks=self.list(tracks), mob_type_id=kind or K(2), usage_code=usage or K(0), name=K('mob %s' % i))

    def reflist(self, items):
        l = self.s.new(self.prog.need_class('AVBRefList'))
        l.attrs['root'] = self.root
        l.attrs['parent'] = NONE
        l.lst = list(items)
        return l

    def bin(self, mobs):
        b = self.s.call(self.s.getattr(self.fac, 'Bin'), [], {})
        for m in mobs:
            self.s.call(self.s.getattr(b, 'add_mob'), [m], {})
        self.s.setattr(self.root, 'content', b)
        return b


def reach(edges, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for y in edges.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def graphs(tier):
    for e in patterns(3, True):
        yield 3, e
    for order in ((1, 2, 3), (3, 2, 1), (2, 3, 1)):
        yield 4, {0: list(order), 1: [3, 2], 2: [3], 3: []}
        yield 4, {0: list(order), 1: [2, 0], 2: [3, 1], 3: [1]}
    yield 5, {0: [1], 1: [2], 2: [3], 3: [4]}
    yield 5, {0: [1], 1: [2], 2: [3], 3: [4], 4: [0]}
    yield 5, {0: [1], 1: [2], 2: [3], 3: [4], 4: [2]}
    yield 5, {0: [4, 3, 2, 1], 1: [2], 2: [3], 3: [4]}
    yield 5, {0: [1, 2], 1: [3], 2: [3], 3: [4, 4], 4: []}
    # a clip of a mob the bin does not have, several clips of one mob
    yield 3, {0: [9, 1, 9, 1], 1: [9, 2, 2], 2: [9]}
    yield 3, {0: [1, 1, 2], 2: [1, None], 1: [None]}
    if tier != 'quick':
        for e in patterns(4, False):
            yield 4, e


def patterns(n, loops):
    """every pattern of references that starts at mob 0, in both orders of a mob's clips; what mob 0 does not reach has none"""
    seen = set()
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for bits in range(1 << len(pairs)):
        e = {}
        for k, (i, j) in enumerate(pairs):
            if bits >> k & 1:
                e.setdefault(i, []).append(j)
        live = reach(e, 0) | {0}
        key = tuple((i, tuple(js)) for i, js in sorted(e.items()) if i in live)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) % 2:
            key = [(i, js[::-1]) for i, js in key]
        # the mobs other than the first are alike
        canon = min(repr(sorted((p[i], tuple(p[j] for j in js)) for i, js in key)) for q in itertools.permutations(range(1, n)) for p in [dict(zip(range(n), (0,) + q))])
        if canon in seen:
            continue
        seen.add(canon)
        yield {i: list(js) for i, js in key}


def show(e):
    return '; '.join('%s refers to %s' % (i, ', '.join(map(str, js))) for i, js in sorted(e.items()) if js)


def walks(w, rep, tier):
    s = w.s
    bad = set()
    for n, e in graphs(tier):
        st = {}

        def act():
            mobs = [w.mob(i, e.get(i, ())) for i in range(n)]
            st['mobs'] = mobs
            w.bin(mobs)
            return list(s.iterate(s.call(s.getattr(mobs[0], 'dependant_mobs'), [], {})))
        real = {i: [j for j in js if j is not None and j < n] for i, js in e.items()}
        want = reach(real, 0) - {0}
        cyclic = any(i in reach(real, i) for i in range(n))
        rep.count('dependency walks interpreted')
        for kind, v, ch in s.runs(act, limit=8):
            if s.unknowns:
                rep.unclear('dependant_mobs', 'depends on %s' % (s.unknowns[0],))
                return
            if kind == 'stop':
                if 'no end' in str(v) or 'depth' in str(v):
                    fd(rep, bad, 'walk/endless', 'the dependency walk does not end when %s' % show(e), w)
                else:
                    rep.unclear('dependant_mobs', str(v))
                continue
            if kind == 'raise':
                fd(rep, bad, 'walk/raises', 'the dependency walk raises %s %s when %s' % (v.name, v.text, show(e)), w)
                continue
            ix = [next((i for i, m in enumerate(st['mobs']) if m is x), None) for x in v]
            if None in ix:
                fd(rep, bad, 'walk/other', 'the dependency walk yields something that is not a mob when %s' % show(e), w)
                continue
            if 0 in ix:
                fd(rep, bad, 'walk/self', 'the dependency walk yields the mob asked itself when %s' % show(e), w)
            if want - set(ix):
                fd(rep, bad, 'walk/missing', 'the dependency walk of mob 0 does not yield mob %s when %s' % (sorted(want - set(ix))[0], show(e)), w)
            if set(ix) - want - {0}:
                fd(rep, bad, 'walk/extra', 'the dependency walk of mob 0 yields mob %s when %s' % (sorted(set(ix) - want)[0], show(e)), w)
            if len(ix) != len(set(ix)):
                fd(rep, bad, 'walk/twice', 'the dependency walk yields a mob twice when %s' % show(e), w)
            if not cyclic:
                for a, i in enumerate(ix):
                    late = set(ix[a + 1:]) & reach(real, i)
                    if late:
                        fd(rep, bad, 'walk/order', 'the dependency walk yields mob %d before mob %d, which it depends on, when %s' % (i, sorted(late)[0], show(e)), w)


def fd(rep, bad, key, text, w):
    if key not in bad:
        bad.add(key)
        rep.finding(key, text, w.where)


def lists(w, rep):
    """each list of the bin selects by kind and usage"""
    s = w.s
    kinds = {1: 'composition', 2: 'master', 3: 'source'}
    want = {'mobs': lambda k, u: True, 'compositionmobs': lambda k, u: k == 1, 'mastermobs': lambda k, u: k == 2, 'sourcemobs': lambda k, u: k == 3,
            'toplevel': lambda k, u: k == 1 and u == 0}
    usages = [0, 1, 2, 3, 5, 9, 14, -1]
    combos = list(itertools.product((1, 2, 3), usages))
    bin_c = w.prog.need_class('Bin')
    for name, pred in sorted(want.items()):
        f = bin_c.find_method(name) or bin_c.find_property(name)
        if not isinstance(f, Func):
            continue
        st = {}

        def act():
            # the last two have one id
            mobs = [w.mob(min(i, len(combos) - 2), (), K(k), K(u)) for i, (k, u) in enumerate(combos)]
            st['mobs'] = mobs
            b = w.bin(mobs)
            v = s.getattr(b, name)
            if not isinstance(bin_c.find_property(name), Func):
                v = s.call(v, [], {})
            return list(s.iterate(v))
        rep.count('mob lists interpreted')
        for kind, v, ch in s.runs(act, limit=8):
            if kind == 'stop' or s.unknowns:
                rep.unclear('Bin.%s' % name, str(v))
                continue
            if kind == 'raise':
                rep.finding('list/%s/raises' % name, 'Bin.%s raises %s %s' % (name, v.name, v.text), f.where)
                continue
            for m, (k, u) in zip(st['mobs'], combos):
                n = sum(x is m for x in v)
                rep.count('memberships checked')
                if n != (1 if pred(k, u) else 0):
                    rep.finding('list/%s/%s' % (name, 'extra' if n > pred(k, u) else 'missing'), 'Bin.%s holds a %s mob of usage %d %d times' % (name, kinds[k], u, n), f.where)
                    break
            else:
                if [id(x) for x in v] != [id(m) for m, c in zip(st['mobs'], combos) if pred(*c)]:
                    rep.finding('list/%s/order' % name, 'Bin.%s is not in the order of the bin' % name, f.where)


def clips(w, rep):
    """a clip's mob and track"""
    s = w.s
    sc = w.prog.need_class('SourceClip')
    for what in ('mob', 'track'):
        f = sc.find_property(what)
        if not isinstance(f, Func):
            rep.unclear('SourceClip.%s' % what, 'not found')
            continue
        for target in (0, 1, 9, None):
            for number in (1, 2, 3, 4, 7):
                for media in (1, 2):
                    st = {}

                    def act():
                        mobs = []
                        st['tracks'] = {}
                        for i in (0, 1):
                            m = w.mob(i, ())
                            ts = [w.track(w.make('Filler', media_kind_id=K(k)), n) for n, k in ((1, 2), (1, 1), (2, 1), (4, 2))] + [w.track(None, 3), w.track(NONE, 3), w.track(w.make('Filler', media_kind_id=K(1)), None)]
                            s.raw_setitem(m.attrs['property_data'], K('tracks'), w.list(ts))
                            st['tracks'][i] = ts
                            mobs.append(m)
                        st['mobs'] = mobs
                        w.bin(mobs)
                        c = w.clip(target, track_id=K(number), media_kind_id=K(media))
                        return s.getattr(c, what)
                    rep.count('clip lookups interpreted')
                    want = None
                    for kind, v, ch in s.runs(act, limit=8):
                        if kind == 'stop' or s.unknowns or isinstance(v, Unknown):
                            rep.unclear('SourceClip.%s' % what, str(v))
                            continue
                        case = 'mob %s, track %d, media kind %d' % (target, number, media)
                        if kind == 'raise':
                            rep.finding('clip/%s/raises' % what, 'SourceClip.%s raises %s %s for %s' % (what, v.name, v.text, case), f.where)
                            continue
                        if target in (0, 1):
                            ix = {(1, 2): 0, (1, 1): 1, (2, 1): 2, (4, 2): 3}.get((number, media))
                            want = st['mobs'][target] if what == 'mob' else st['tracks'][target][ix] if ix is not None else None
                        else:
                            want = None
                        none = isinstance(v, K) and v.v is None
                        if want is None and not none:
                            rep.finding('clip/%s/extra' % what, 'SourceClip.%s finds %r where there is none: %s' % (what, v, case), f.where)
                        elif want is not None and v is not want:
                            rep.finding('clip/%s/wrong' % what, 'SourceClip.%s gives %r for %s' % (what, v, case), f.where)


def kinds(w, rep):
    """the media kind of a track is its component's"""
    s = w.s
    f = w.prog.need_class('Track').find_property('media_kind')
    if not isinstance(f, Func):
        return
    for comp in ('component', 'null reference', 'nothing'):
        def act():
            c = {'component': lambda: w.make('Filler', media_kind_id=K(2)), 'null reference': lambda: NONE, 'nothing': lambda: None}[comp]()
            return s.getattr(w.track(c, 1), 'media_kind')
        rep.count('track kinds interpreted')
        for kind, v, ch in s.runs(act, limit=8):
            if kind == 'stop' or s.unknowns or isinstance(v, Unknown):
                rep.unclear('Track.media_kind', str(v))
            elif kind == 'raise':
                rep.finding('kind/raises/%s' % comp, 'Track.media_kind raises %s %s on a track with %s as component' % (v.name, v.text, comp), f.where)
            elif not isinstance(v, K) or v.v != ('sound' if comp == 'component' else None):
                rep.finding('kind/wrong/%s' % comp, 'Track.media_kind gives %r for a track with %s as component' % (v, comp), f.where)


def histories(w, rep):
    """lookup by id after changes of the bin"""
    s = w.s
    f = w.prog.need_class('Bin').find_method('find_by_mob_id')
    where = f.where if isinstance(f, Func) else None

    def item(m):
        i = w.make('BinItem')
        s.raw_setitem(i.attrs['property_data'], K('mob'), m)
        return i

    def items(b):
        return s.getattr(b, 'items')
    # each change takes the model {id: mob} along
    def add(b, st):
        m = w.mob(5, ())
        s.call(s.getattr(b, 'add_mob'), [m], {})
        st['mobs'].append(m)

    def append(b, st):
        m = w.mob(6, ())
        s.call(s.getattr(items(b), 'append'), [item(m)], {})
        st['mobs'].append(m)

    def remove(b, st):
        s.call(s.getattr(items(b), 'pop'), [K(0)], {})
        st['mobs'].pop(0)

    def new_id(b, st):
        m = st['mobs'][-1]
        s.setattr(m, 'mob_id', w.id(8))

    def replace(b, st):
        m = w.mob(7, ())
        i = s.getitem(items(b), K(0)) if hasattr(s, 'getitem') else items(b).lst[0]
        s.setattr(i, 'mob', m)
        st['mobs'][0] = m
    changes = [('add_mob', add), ('appending to items', append), ('removing an item', remove), ('changing a mob id', new_id), ('replacing the mob of an item', replace)]
    failing = set()
    for looked in (False, True):
        for (na, a), (nb, b2) in itertools.product([('nothing', None)] + changes, repeat=2):
            if a is None and b2 is not None:
                a, na, b2, nb = b2, nb, None, 'nothing'
            elif b2 is None and a is not None:
                continue
            if {(looked, na), (looked, nb)} & failing:
                continue
            st = {}

            def act():
                mobs = [w.mob(i, ()) for i in range(3)]
                b = w.bin(mobs)
                st['mobs'] = list(mobs)
                if looked:
                    s.call(s.getattr(b, 'find_by_mob_id'), [w.id(1)], {})
                for c in (a, b2):
                    if c is not None:
                        c(b, st)
                return [(i, s.call(s.getattr(b, 'find_by_mob_id'), [w.id(i)], {})) for i in range(10)]
            rep.count('histories interpreted')
            for kind, v, ch in s.runs(act, limit=8):
                def fail(key, text):
                    failing.add((looked, na) if b2 is None else (looked, na, nb))
                    rep.finding(key, text, where)
                names = [n for n, c in ((na, a), (nb, b2)) if c is not None]
                case = ', then '.join((['a lookup'] if looked else []) + names) or 'no change'
                if kind == 'stop' or s.unknowns:
                    rep.unclear('Bin.find_by_mob_id', '%s: %s' % (case, v))
                    continue
                if kind == 'raise':
                    fail('lookup/raises/%s' % case, 'after %s the lookup raises %s %s' % (case, v.name, v.text))
                    continue
                for i, x in v:
                    have = [m for m in st['mobs'] if s.getattr(m, 'mob_id').hashlabel == ('mob', i)]
                    none = isinstance(x, K) and x.v is None
                    if have and not any(x is m for m in have):
                        fail('lookup/missing/%s' % case, 'after %s a mob of the bin is not found by its id' % case)
                        break
                    if not have and not none:
                        fail('lookup/stale/%s' % case, 'after %s an id no mob of the bin has still finds a mob' % case)
                        break
