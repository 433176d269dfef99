"""C26: positions in a sequence."""
import itertools
from ..load import Func
from ..shapes import Inst, K, NONE, Lin, Unknown, lin
from .c24 import World
from .shapeutil import interp


def check(prog, rep, tier):
    top = 7 if tier == 'thorough' else 5
    rep.rule("The length of a sequence and its walk over positions are interpreted for every row of up to %d components, each a clip or a transition, with open lengths that are carried as sums: "
             "they must be exactly the sums the definition gives, whatever the lengths are. The lookup of a position is interpreted for every row of up to three components of lengths 0 to 2 (a transition between two others longer than it also) and every position in and around it: "
             "a position inside a component must give that component and its start." % top)
    rep.assume("A position on the border of two components may give either of them; one inside a transition gives the transition, and a transition is no longer than what it overlaps.")
    s = interp(prog)
    w = World(prog, s, rep)
    if w.root is None:
        return
    seq = prog.find_class('Sequence')
    if seq is None:
        return rep.unclear('Sequence', 'not found')
    sums(w, seq, rep, top)
    lookup(w, seq, rep)
    rep.need('rows interpreted', 20)
    rep.need('lookups interpreted', 100)


def build(w, row):
    """a sequence of (is a transition, length)"""
    comps = []
    for i, (t, n) in enumerate(row):
        c = w.make('TransitionEffect' if t else 'Filler', length=n, media_kind_id=K(1))
        c.label = 'component %d' % i
        comps.append(c)
    return w.make('Sequence', components=w.reflist(comps), media_kind_id=K(1)), comps


def starts(row):
    """[start of each], whole length: a transition lies over the end of what is before it"""
    out, at = [], ({}, 0)

    def plus(a, b, k):
        p = dict(a[0])
        for n, c in b[0].items():
            p[n] = p.get(n, 0) + k * c
        return {n: c for n, c in p.items() if c}, a[1] + k * b[1]
    for t, n in row:
        if t:
            at = plus(at, lin(n), -1)
            out.append(at)
        else:
            out.append(at)
            at = plus(at, lin(n), 1)
    return out, at


def text(row):
    return ', '.join('%s %s' % ('transition' if t else 'clip', n.label if isinstance(n, Lin) else n.v) for t, n in row) or 'nothing'


def sums(w, seq, rep, top):
    s = w.s
    fl, fp = seq.find_property('length'), seq.find_method('positions')
    todo = [[(t, Lin({'length%d' % i: 1})) for i, t in enumerate(kinds)] for n in range(top + 1) for kinds in itertools.product((False, True), repeat=n)]
    for row in todo + list(rows()):
        at, whole = starts(row)
        for what, f in (('length', fl), ('positions', fp)):
            if not isinstance(f, Func):
                rep.unclear('Sequence.%s' % what, 'not found')
                continue
            st = {}

            def act():
                q, st['comps'] = build(w, row)
                if what == 'length':
                    return s.getattr(q, 'length')
                return [[y for y in s.iterate(x)] for x in s.iterate(s.call(s.getattr(q, 'positions'), [], {}))]
            for kind, v, ch in s.runs(act, limit=16):
                rep.count('rows interpreted')
                if kind == 'stop' or s.unknowns or isinstance(v, Unknown) or ch:
                    rep.unclear('Sequence.%s' % what, 'not followed for %s: %s' % (text(row), v))
                    continue
                if kind == 'raise':
                    rep.finding('%s/raises' % what, 'Sequence.%s raises %s %s for %s' % (what, v.name, v.text, text(row)), f.where)
                    continue
                if what == 'length':
                    g = lin(v)
                    if g is None:
                        rep.unclear('Sequence.length', 'the sum of %s is not traced: %r' % (text(row), v))
                    elif g != whole:
                        rep.finding('length', 'the length of a sequence of %s is %s' % (text(row), v.label if isinstance(v, Lin) else v.v), f.where)
                    continue
                if [x[2] if len(x) == 3 else None for x in v] != st['comps']:
                    rep.finding('positions/components', 'Sequence.positions does not give each component of %s once in order' % text(row), f.where)
                    continue
                for i, x in enumerate(v):
                    g = lin(x[1])
                    if not (isinstance(x[0], K) and x[0].v == i):
                        rep.finding('positions/index', 'Sequence.positions numbers component %d of %s as %r' % (i, text(row), x[0]), f.where)
                    if g is None:
                        rep.unclear('Sequence.positions', 'position %r not traced' % (x[1],))
                    elif g != at[i]:
                        rep.finding('positions/start', 'component %d of %s is given the position %s' % (i, text(row), x[1].label if isinstance(x[1], Lin) else x[1].v), f.where)


def rows():
    for n in range(1, 4):
        for ls in itertools.product((0, 1, 2), repeat=n):
            yield [(False, K(l)) for l in ls]
    for a, t, b in ((3, 1, 2), (2, 2, 3), (4, 2, 4), (3, 0, 2)):
        yield [(False, K(a)), (True, K(t)), (False, K(b))]
        yield [(False, K(a)), (True, K(t)), (False, K(b)), (False, K(2))]
        yield [(False, K(1)), (False, K(a)), (True, K(t)), (False, K(b))]
    yield [(False, K(5)), (True, K(2)), (False, K(6)), (True, K(3)), (False, K(5))]


def lookup(w, seq, rep):
    s = w.s
    for what in ('nearest_index_at_time', 'nearest_component_at_time'):
        f = seq.find_method(what)
        if not isinstance(f, Func):
            rep.unclear('Sequence.%s' % what, 'not found')
            continue
        for row in rows():
            at, whole = starts(row)
            ends = [a[1] + n.v for a, (t, n) in zip(at, row)]
            if what == 'nearest_component_at_time' and len(row) < 3:
                continue
            for p in range(-1, max(ends) + 2):
                want = [i for i, (t, n) in enumerate(row) if t and at[i][1] <= p < ends[i]]
                if want:
                    # also a border of what the transition does not lie over
                    k = want[0]
                    want += [i for i, (t, n) in enumerate(row) if not t and abs(i - k) > 1 and p in (at[i][1], ends[i]) and n.v]
                else:
                    want = [i for i, (t, n) in enumerate(row) if not t and at[i][1] <= p <= ends[i] and n.v]
                    # strictly inside one: that one
                    inner = [i for i in want if at[i][1] < p < ends[i]]
                    want = inner or want
                if not want:
                    continue
                st = {}

                def act():
                    q, st['comps'] = build(w, row)
                    r = s.call(s.getattr(q, what), [K(p)], {})
                    return list(s.iterate(r))
                for kind, v, ch in s.runs(act, limit=16):
                    rep.count('lookups interpreted')
                    if kind == 'stop' or s.unknowns or isinstance(v, Unknown) or ch:
                        rep.unclear('Sequence.%s' % what, 'not followed: %s' % (v,))
                        continue
                    if kind == 'raise':
                        rep.finding('lookup/raises', 'Sequence.%s(%d) raises %s %s for %s' % (what, p, v.name, v.text, text(row)), f.where)
                        continue
                    got = None
                    if len(v) == 2:
                        if what == 'nearest_index_at_time':
                            got = v[0].v if isinstance(v[0], K) else None
                        else:
                            got = next((i for i, c in enumerate(st['comps']) if c is v[0]), None)
                    if got is None:
                        rep.unclear('Sequence.%s' % what, 'result %r not followed' % (v,))
                    elif got not in want:
                        rep.finding('lookup/wrong/%s' % what, 'Sequence.%s(%d) gives component %d of %s instead of component %d' % (what, p, got, text(row), want[0]), f.where)
                    elif not (isinstance(v[1], K) and v[1].v == at[got][1]):
                        rep.finding('lookup/start/%s' % what, 'Sequence.%s(%d) gives the start %r for component %d of %s' % (what, p, v[1], got, text(row)), f.where)
