"""What a function changes, in terms of its own self and parameters."""
from .flow import Flow, show
from .load import Func, Class

MUTATORS = frozenset(('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__',
                      '__iadd__', '__imul__', 'popitem', 'move_to_end', 'update', 'setdefault', '__ior__', 'add', 'discard', '__setattr__'))
VIEWS = frozenset(('values', 'items', 'keys', 'get', 'deref'))
WRAP = frozenset(('enumerate', 'reversed', 'iter', 'zip', 'list', 'sorted', 'tuple', 'getattr', 'super'))


def root_of(d, through_copies=False):
    """('self',) or ('param', n) a place belongs to; None when it is a fresh or unknown object.
    Copies (list(), sorted()) lose the container but keep the elements."""
    elem = False
    while isinstance(d, tuple):
        k = d[0]
        if k in ('self', 'param'):
            return d
        if k in ('glob', 'class'):
            return d
        if k in ('attr', 'idx', 'slice', 'item', 'val', 'key'):
            d = d[1]
        elif k == 'elem':
            elem = True
            d = d[1]
        elif k == 'local' and len(d) > 2:
            d = d[2]
        elif k == 'call':
            f = d[1]
            if f[0] == 'attr' and f[2] in VIEWS:
                d = f[1]
            elif f[0] == 'builtin' and f[1] in WRAP and d[2]:
                if f[1] in ('list', 'sorted', 'tuple') and not elem:
                    return None
                d = d[2][0]
            else:
                return None
        else:
            return None
    return None


class Effects(Flow):
    def __init__(self, prog, func, cls, opaque=None, env=None):
        self.found = []       # (kind, place, where, ev)
        self.unresolved = 0
        super().__init__(prog, self.on, opaque=opaque)
        self.out = self.run(func, {None}, cls=cls, env=env)

    def on(self, st, ev):
        t = ev.target
        if ev.kind in ('store', 'aug', 'del') and t[0] in ('attr', 'idx', 'slice'):
            self.found.append((ev.kind, t, ev))
        elif ev.kind == 'call' and t[0] == 'attr':
            if t[2] in MUTATORS:
                self.found.append(('call', t, ev))
            elif t[2] in ('mark_modified', 'add_modified'):
                self.found.append(('mark', t, ev))
            elif ev.callee is None:
                self.unresolved += 1
        elif ev.kind == 'call' and t == ('builtin', 'setattr') and ev.args:
            self.found.append(('store', ('attr', ev.args[0], show(ev.args[1]) if len(ev.args) > 1 else '?'), ev))
        elif ev.kind == 'call' and t == ('builtin', 'delattr') and ev.args:
            self.found.append(('del', ('attr', ev.args[0], '?'), ev))
        return None
