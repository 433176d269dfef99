"""C31: which points of a curve a time falls between, and what is given there."""
from fractions import Fraction
from ..load import Func
from ..shapes import Inst, K, Lin, FuncV, Unknown, lin
from .c24 import World
from .shapeutil import interp

ROWS = [(0,), (-8,), (0, 8), (-4, 12), (24, 40), (-40, -24), (0, 8, 16), (-16, 0, 4), (0, 8, 16, 48), (4, 20, 28, 60), (0, 8, 16, 48, 56), (-8, 0, 8, 40, 48, 64)]
MORE = [(0, 4, 8, 12, 16, 20, 24), (-32, -16, 0, 4, 8, 12, 28, 60)]


def check(prog, rep, tier):
    rep.rule("Evaluating a curve is interpreted for rows of up to %d points at every point, between every two and outside both ends, with open values that are carried as linear forms: the result must be exactly the value or mix of values the definition gives, for all values. "
             "For bezier and spline curves what is handed to the solver must be the neighbouring points (and handles). Comparisons of times are by order only. "
             "Integrating is interpreted for a curve of one open value. The bezier polynomial is compared with its definition at five parameters, which determine it." % (8 if tier == 'thorough' else 6))
    rep.assume("What the bezier solver computes from the points is numerical and not decided (C28). Two points at the same time, and bezier or spline curves at their own points, are left out.")
    s = interp(prog)
    w = World(prog, s, rep)
    clip = prog.find_class('ParamClip')
    if w.root is None or clip is None:
        return rep.unclear('ParamClip', 'not found')
    s.maxsteps *= 4
    c = Curves(prog, rep, s, w, clip)
    kinds = {}
    for k in range(0, 9):
        for kind, v, ch in s.runs(lambda: s.getattr(c.make((0, 4), k), 'interp'), limit=2):
            if kind == 'ok' and isinstance(v, K) and isinstance(v.v, str):
                kinds[k] = v.v
    for row in ROWS + (MORE if tier == 'thorough' else []):
        c.find(row)
        for k, name in sorted(kinds.items()):
            c.at(row, k, name)
        c.integrate(row, [k for k, n in kinds.items() if n == 'ConstantInterp'])
    c.times()
    c.empty()
    c.polynomial()
    rep.need('points located', 40)
    rep.need('values interpreted', 100)


def probes(row):
    """[(time, index of the last point at or before, -1 before all)]"""
    ts = set()
    for i, t in enumerate(row):
        ts.update((t, t - 0.5, t + 0.5))
        if i:
            ts.update(((row[i - 1] + t) / 2, row[i - 1] + (t - row[i - 1]) / 4))
    return [(t, sum(1 for p in row if p <= t) - 1) for t in sorted(ts)]


class Curves(object):
    def __init__(self, prog, rep, s, w, clip):
        self.prog, self.rep, self.s, self.w, self.clip = prog, rep, s, w, clip
        self.shapes = {}

    def make(self, row, kind, value=None, handles=False, base=None):
        pts = []
        for i, t in enumerate(row):
            pp = []
            if handles and i % 2 == 0:
                for code, n in ((5, 'in x'), (6, 'in y'), (7, 'out x'), (8, 'out y')):
                    pp.append(self.w.make('ParamControlPointProperty', code=K(code), type=K(2), value=Lin({'%s%d' % (n, i): 1}, 0, 'float')))
            if base is not None and i == 0:
                pp.append(self.w.make('ParamControlPointProperty', code=K(9), type=K(1), value=K(1)))
                pp.append(self.w.make('ParamControlPointProperty', code=K(14), type=K(1), value=base))
            p = self.w.make('ParamControlPoint', offset=self.w.list([K(t), K(1)]), timescale=K(1), value=value or Lin({'v%d' % i: 1}, 0, 'float'), pp=self.w.list(pp))
            p.label = 'point %d' % i
            pts.append(p)
        return self.w.make('ParamClip', interp_kind=K(kind), value_type=K(2), control_points=self.w.list(pts), media_kind_id=K(1))

    def where(self, name):
        m = self.clip.find_method(name)
        return m.where if isinstance(m, Func) else self.clip.where

    def run(self, name, act, what):
        """('ok', value), ('raise', name) or None when it is not followed"""
        rs = list(self.s.runs(act, limit=24))
        self.rep.count(what)
        if len(rs) != 1 or rs[0][0] == 'stop' or rs[0][2] or self.s.unknowns or isinstance(rs[0][1], Unknown):
            self.rep.unclear('ParamClip.%s' % name, 'not followed: %s' % (rs[0][1:],))
            return None
        return ('raise', rs[0][1].name) if rs[0][0] == 'raise' else ('ok', rs[0][1])

    def find(self, row):
        s = self.s
        if not isinstance(self.clip.find_method('nearest_index'), Func):
            return
        for t, i in probes(row):
            r = self.run('nearest_index', lambda: s.call(s.getattr(self.make(row, 3), 'nearest_index'), [K(float(t))], {}), 'points located')
            if r is None:
                continue
            if r[0] == 'raise' or not isinstance(r[1], K):
                if r[0] == 'raise':
                    self.rep.finding('nearest/raises', 'nearest_index(%g) raises %s for points at %s' % (t, r[1], list(row)), self.where('nearest_index'))
                else:
                    self.rep.unclear('ParamClip.nearest_index', 'result %s' % r[1])
            elif r[1].v != max(0, i):
                self.rep.finding('nearest', 'nearest_index(%g) gives point %r for points at %s, not the last one at or before it' % (t, r[1].v, list(row)), self.where('nearest_index'))

    def at(self, row, kind, name):
        s = self.s
        for t, i in probes(row):
            got = []

            def hook(sh, f, args, kw):
                if isinstance(f, FuncV) and f.f.name in ('bezier_interpolate', 'cubic_interpolate'):
                    got.append((f.f.name, [[e for e in sh.iterate(a)] if isinstance(a, Inst) else a for a in args]))
                    return Lin({'solved': 1}, 0, 'float')
                return None

            def act():
                del got[:]
                s.hook_call = hook
                try:
                    return s.call(s.getattr(self.make(row, kind, handles=True), 'value_at'), [K(float(t))], {})
                finally:
                    s.hook_call = None
            r = self.run('value_at', act, 'values interpreted')
            if r is None:
                continue
            at = 'at %g of a %s curve with points at %s' % (t, name, list(row))
            where = self.where('value_at')
            last = len(row) - 1
            outside = i < 0 or i >= last
            known = name in ('ConstantInterp', 'LinearInterp', 'BezierInterpolator', 'CubicInterpolator')
            if not outside and not known:
                if r[0] != 'raise':
                    self.rep.finding('value/unknown', 'the value %s is made up: the interpolation is not known' % at, where)
                continue
            if r[0] == 'raise':
                self.rep.finding('value/raises', 'the value %s: raises %s' % (at, r[1]), where)
                continue
            if outside:
                want = {'v%d' % (0 if i < 0 else last): 1}
            elif name == 'ConstantInterp':
                want = {'v%d' % i: 1}
            elif name == 'LinearInterp':
                m = Fraction(t - row[i]) / (row[i + 1] - row[i])
                want = {n: c for n, c in (('v%d' % i, 1 - m), ('v%d' % (i + 1), m)) if c}
            else:
                if row[i] == t and not got:
                    want = {'v%d' % i: 1}
                else:
                    self.solver(row, i, t, name, got, at, where)
                    continue
            g = lin(r[1])
            if g is None:
                self.rep.unclear('ParamClip.value_at', 'the value %s is not traced: %s' % (at, r[1]))
            elif g != (want, 0):
                self.rep.finding('value/%s' % ('outside' if outside else name), 'the value %s is %s, not %s' % (at, text(r[1]), text(Lin(want, 0, 'float'))), where)

    def solver(self, row, i, t, name, got, at, where):
        if len(got) != 1 or len(got[0][1]) != 5 or got[0][0] != ('bezier_interpolate' if name == 'BezierInterpolator' else 'cubic_interpolate'):
            return self.rep.unclear('ParamClip.value_at', 'how the value %s is solved is not visible' % at)
        self.rep.count('solver calls compared')
        args = [[K(e) for e in a.v] if isinstance(a, K) and isinstance(a.v, (tuple, list)) else a for a in got[0][1]]
        pts = [[lin(e) for e in a] if isinstance(a, list) else None for a in args[:4]]
        tt = lin(args[4])
        if tt is None or any(p is None or len(p) != 2 or None in p for p in pts):
            return self.rep.unclear('ParamClip.value_at', 'what is solved %s is not traced' % at)

        def point(j, hx=None, hy=None):
            x, y = ({}, row[j]), ({'v%d' % j: 1}, 0)
            if hx and j % 2 == 0:
                x = ({'%s%d' % (hx, j): 1}, row[j])
                y = ({'v%d' % j: 1, '%s%d' % (hy, j): 1}, 0)
            return [x, y]
        if name == 'BezierInterpolator':
            want = [point(i), point(i, 'out x', 'out y'), point(i + 1, 'in x', 'in y'), point(i + 1)]
        else:
            want = [point(i - 1) if i else None, point(i), point(i + 1), point(i + 2) if i + 2 < len(row) else None]
        if tt != ({}, t) or any(b is not None and a != b for a, b in zip(pts, want)):
            return self.rep.finding('solver/%s' % name, 'the value %s is solved from %s, not from the points and handles on both sides' % (at, '; '.join('(%s)' % ', '.join(text(e) for e in a) for a in args[:4])), where)
        for j, b in enumerate(want):
            if b is not None:
                continue
            (xc, x), (yc, y) = pts[j]
            if xc:
                self.rep.unclear('ParamClip.value_at', 'the time standing in for a missing neighbour %s is not a constant' % at)
            elif j == 0 and x >= row[i] or j == 3 and x <= row[i + 1]:
                self.rep.finding('standin/side', 'the value %s is solved with a stand-in for the missing neighbour at %g, which is not %s the segment' % (at, x, 'after' if j else 'before'), where)
            shape = (tuple(p - row[0] for p in row), i, t - row[0], j)
            seen = self.shapes.setdefault(shape, (x - row[0], row))
            if seen[0] != x - row[0]:
                self.rep.finding('standin/shift', 'the value %s is solved with a stand-in for the missing neighbour at %g: moving the curve (points at %s) moves it differently' % (at, x, list(seen[1])), where)
            if y or abs(sum(yc.values()) - 1) > 1e-9:
                self.rep.finding('standin/value', 'the value %s is solved with a stand-in of value %s for the missing neighbour, which does not move with the values of the curve' % (at, text(args[j][1])), where)

    def times(self):
        s = self.s
        pt = self.prog.find_class('ParamControlPoint')
        p = pt.find_property('time') if pt is not None else None
        if not isinstance(p, Func):
            return self.rep.unclear('ParamControlPoint.time', 'not found')
        for n, d, ts, want in ((6, 1, 1, 6.0), (6, 4, 1, 1.5), (-6, 4, 2, -3.0), (0, 5, 3, 0.0), (3, -2, 1, -1.5), (6, 0, 1, None), (6, 1, 0, None), (0, 0, 1, None)):
            def act():
                return s.getattr(self.w.make('ParamControlPoint', offset=self.w.list([K(n), K(d)]), timescale=K(ts), value=K(1), pp=self.w.list([])), 'time')
            rs = list(s.runs(act, limit=4))
            self.rep.count('point times interpreted')
            if len(rs) != 1 or rs[0][0] == 'stop' or s.unknowns or rs[0][0] == 'ok' and not isinstance(rs[0][1], K):
                self.rep.unclear('ParamControlPoint.time', 'not followed')
            elif want is None and rs[0][0] == 'ok':
                self.rep.finding('time/undefined', 'the time %d/%d with time scale %d is not defined but given as %r' % (n, d, ts, rs[0][1].v), p.where)
            elif want is not None and (rs[0][0] == 'raise' or rs[0][1].v != want):
                self.rep.finding('time', 'the time of a point at %d/%d with time scale %d is %s' % (n, d, ts, rs[0][1].v if rs[0][0] == 'ok' else rs[0][1].name), p.where)

    def empty(self):
        s = self.s
        for name, args in (('value_at', [K(0.0)]), ('nearest_index', [K(0.0)])):
            if not isinstance(self.clip.find_method(name), Func):
                continue
            r = self.run(name, lambda: s.call(s.getattr(self.make((), 3), name), args, {}), 'points located')
            if r is not None and r[0] == 'ok':
                self.rep.finding('empty/%s' % name, '%s gives a result for a curve without points' % name, self.where(name))

    def integrate(self, row, constant):
        s = self.s
        if not constant or not isinstance(self.clip.find_method('integrate'), Func) or len(row) > 3:
            return
        for a, b in ((row[0], row[0] + 2), (row[0] - 2, row[0] + 2), (row[0] + 1, row[0] + 3), (row[0], None), (row[0] - 4, row[0] - 2), (row[0], row[0])):
            if b is None and row[-1] - row[0] > 8:
                continue
            end = row[-1] if b is None else b

            def act():
                c = self.make(row, constant[0], value=Lin({'v': 1}, 0, 'float'), base=Lin({'base': 1}, 0, 'float'))
                return [[e for e in s.iterate(p)] for p in s.iterate(s.call(s.getattr(c, 'integrate'), [K(a)] + ([] if b is None else [K(b)]), {}))]
            r = self.run('integrate', act, 'integrals interpreted')
            at = 'from %s to %s of a curve with points at %s' % (a, 'the end' if b is None else b, list(row))
            where = self.where('integrate')
            if r is None:
                continue
            if r[0] == 'raise':
                self.rep.finding('integrate/raises', 'integrating %s raises %s' % (at, r[1]), where)
                continue
            if any(len(p) != 2 or not isinstance(p[0], K) or lin(p[1]) is None for p in r[1]):
                self.rep.unclear('ParamClip.integrate', 'the integral %s is not traced' % at)
                continue
            ts = [p[0].v for p in r[1]]
            if ts != [a + k / 2 for k in range(2 * (end - a) + 1)]:
                self.rep.finding('integrate/times', 'the integral %s is given at the times %s, not at each half frame' % (at, ts), where)
                continue
            for p in r[1]:
                parts, const = lin(p[1])
                want = {'v': p[0].v - row[0], 'base': 1}
                if any(abs(float(parts.get(n, 0)) - want.get(n, 0)) > 1e-6 for n in set(parts) | set(want)) or abs(float(const)) > 1e-6:
                    self.rep.finding('integrate/value', 'the integral %s of the constant v is %s at %g' % (at, text(p[1]), p[0].v), where)
                    break

    def polynomial(self):
        s = self.s
        fs = [f for f in self.prog.functions() if f.name in ('cubic_bezier', 'lerp') and f.cls is None]
        for f in fs:
            ps = [Lin({'p%d' % i: 1}, 0, 'float') for i in range(4 if f.name == 'cubic_bezier' else 2)]
            for t in (0.0, 0.25, 0.5, 0.75, 1.0):
                rs = list(s.runs(lambda: s.call(FuncV(f), ps + [K(t)], {}), limit=2))
                self.rep.count('curve polynomials interpreted')
                g = lin(rs[0][1]) if len(rs) == 1 and rs[0][0] == 'ok' else None
                if g is None or s.unknowns:
                    self.rep.unclear(f.name, 'not followed')
                    continue
                t, u = Fraction(t), 1 - Fraction(t)
                want = [u ** 3, 3 * u * u * t, 3 * u * t * t, t ** 3] if len(ps) == 4 else [u, t]
                if any(abs(g[0].get('p%d' % i, 0) - c) > 1e-12 for i, c in enumerate(want)) or abs(g[1]) > 1e-12:
                    self.rep.finding('polynomial/%s' % f.name, '%s at %g is %s' % (f.name, t, text(rs[0][1])), f.where)


def text(v):
    return v.label if isinstance(v, Lin) else '%s' % v.v if isinstance(v, K) else '%s' % v
