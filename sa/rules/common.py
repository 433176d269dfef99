"""shared driver: reader/writer effect trees of every registered object kind, aligned"""
import traceback
from ..pe import extract, P, Loop, ExtLoop, Alt, Opaque, Raise, WIDTHS
from ..wire import Align, Binds, Mismatch, Undecided, loc
from .. import terms as T
from ..terms import C, is_c, cv, UNSET


class Unit(object):
    def __init__(self, cls, cid):
        self.cls = cls
        self.cid = cid
        self.r = self.w = self.al = None
        self.error = None        # Mismatch or Undecided
        self.crash = None

    @property
    def name(self):
        return self.cls.name


def units(prog, rep):
    out = []
    for c, cid, kind in prog.registered():
        if kind != 'class':
            continue
        u = Unit(c, cid)
        out.append(u)
        rep.count('object kinds')
        try:
            u.r = extract(prog, c, 'r')
            u.w = extract(prog, c, 'w', types=Binds(u.r).types())
            u.al = Align(u.r, u.w)
            u.al.run()
        except (Mismatch, Undecided) as e:
            u.error = e
        except RecursionError:
            u.crash = 'too deeply nested'
        except Exception as e:
            u.crash = "%s: %s" % (type(e).__name__, e)
    rep.need('object kinds', 40)
    return out


def presence(v):
    """condition under which a heap value is set"""
    if v == UNSET:
        return T.FALSE
    if v[0] == 'ite':
        a, b = presence(v[2]), presence(v[3])
        if a == b:
            return a
        if a == T.TRUE and b == T.FALSE:
            return v[1]
        return T.ite(v[1], a, b)
    if v[0] == 'either':
        a, b = presence(v[1]), presence(v[2])
        return a if a == b else T.unk('presence')
    return T.TRUE
