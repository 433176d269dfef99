"""Syntax-directed effect extraction.

Walks the body of a function (inlining in-repo callees) over abstract values and
emits the tree of wire effects it performs: which primitive is read from or written
to the stream, bound to which property, under which guard, in which loop.  No code
of the repository is run and no path is handed to a solver; what the walk does not
understand becomes an Opaque node, which makes the unit undecided, never a finding."""
import ast
from . import terms as T
from .terms import C, is_c, cv, unk, UNSET
from .load import Func, Class, Module, dotted, fold, DICT_METHODS, LIST_METHODS

SUFFIX_KIND = {
    'u8': 'u8', 's8': 's8', 'bool': 'bool',
    'u16': 'u16', 's16': 's16', 'u32': 'u32', 's32': 's32', 'u64': 'u64', 's64': 's64',
    'double': 'double', 'fourcc': 'fourcc', 'exp10_encoded_float': 'exp10',
    'string': 'string', 'object_ref': 'ref', 'uuid': 'uuid', 'mob_id': 'mob_id',
    'raw_uuid': 'raw_uuid', 'datetime': 'datetime', 'rect': 'rect', 'rgb_color': 'rgb',
}
BASE_ENDIAN = {}
for _k in ('u16', 's16', 'u32', 's32', 'u64', 's64'):
    BASE_ENDIAN[_k + 'le'] = (_k, 'le')
    BASE_ENDIAN[_k + 'be'] = (_k, 'be')
for _k in ('double', 'fourcc'):
    BASE_ENDIAN[_k + '_le'] = (_k, 'le')
    BASE_ENDIAN[_k + '_be'] = (_k, 'be')

STRUCT_KIND = {'B': ('u8', 1), 'b': ('s8', 1), 'H': ('u16', 2), 'h': ('s16', 2), 'I': ('u32', 4),
               'i': ('s32', 4), 'L': ('u32', 4), 'l': ('s32', 4), 'Q': ('u64', 8), 'q': ('s64', 8),
               'd': ('double', 8), 'f': ('float', 4)}


class Node(object):
    after = None        # conditions the reader insists on once this was read
    line = 0
    file = ''
    func = ''


class P(Node):
    """One wire primitive."""
    def __init__(self, kind, val=None):
        self.kind = kind        # string; 'string:<encoding>'; 'raw'
        self.val = val          # written value (write mode) / size (raw read)
        self.const = None       # value the reader insists on
        self.allowed = None
        self.id = None
        self.size = None        # raw
        self.endian = None

    def __repr__(self):
        s = "%s" % self.kind
        if self.size is not None:
            s += "[%s]" % T.show(self.size)
        if self.const is not None:
            s += "==%s" % T.show(self.const)
        if self.val is not None:
            s += "(%s)" % T.show(self.val)
        return s


class Loop(Node):
    def __init__(self, lid, count, body, base=None):
        self.id = lid
        self.count = count
        self.body = body
        self.base = base        # the iterated term, when it iterates one
        self.order = 1

    def __repr__(self):
        return "Loop#%d[%s]%r" % (self.id, T.show(self.count), self.body)


class ExtLoop(Node):
    """optional extension blocks: {tag: effects}, and whether every other tag is refused"""
    def __init__(self, tag, cases, rejects):
        self.tag = tag
        self.cases = cases
        self.rejects = rejects

    def __repr__(self):
        return "Ext%r" % (self.cases,)


class Raise(Node):
    def __repr__(self):
        return "Raise"


class Alt(Node):
    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return "Alt(%s ? %r : %r)" % (T.show(self.cond), self.a, self.b)


class Opaque(Node):
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return "Opaque(%s)" % self.reason


WIDTHS = {'u8': 1, 's8': 1, 'bool': 1, 'u16': 2, 's16': 2, 'u32': 4, 's32': 4, 'u64': 8, 's64': 8,
          'double': 8, 'float': 4, 'fourcc': 4, 'ref': 4, 'exp10': 6, 'datetime': 4, 'raw_uuid': 16}


def buf_size(items):
    """size in bytes of an effect list, as a term (None: not understood)"""
    r = C(0)
    for n in items:
        if isinstance(n, P):
            if n.kind in WIDTHS:
                r = T.add(r, C(WIDTHS[n.kind]))
            elif n.kind == 'raw' and n.size is not None and not T.has_unk(n.size):
                r = T.add(r, n.size)
            else:
                return None
        elif isinstance(n, Loop):
            b = buf_size(n.body)
            if b is None or not is_c(b) or T.has_unk(n.count):
                return None
            r = T.add(r, T.mul(n.count, b))
        else:
            return None
    return r


class HObj(object):
    __slots__ = ('id', 'kind', 'cls', 'fields', 'items', 'elem', 'loops', 'keyed', 'sym', 'meta', 'weird')

    def __init__(self, oid, kind, cls=None, loops=()):
        self.id = oid
        self.kind = kind      # inst list dict buffer
        self.cls = cls
        self.fields = {}
        self.items = []
        self.elem = None      # summary of elements added in unknown loops
        self.loops = loops
        self.keyed = {}
        self.sym = None       # term standing for unset attributes ('self',)
        self.meta = {}
        self.weird = False

    def clone(self):
        o = HObj(self.id, self.kind, self.cls, self.loops)
        o.fields = dict(self.fields)
        o.items = list(self.items)
        o.elem = self.elem
        o.keyed = dict(self.keyed)
        o.sym = self.sym
        o.meta = dict(self.meta)
        o.weird = self.weird
        return o


class Frame(object):
    def __init__(self, func, module, cls=None, selfterm=None, parent=None):
        self.func = func
        self.module = module
        self.cls = cls
        self.selfterm = selfterm
        self.parent = parent
        self.env = {}
        self.yield_handler = None


class TooDeep(Exception):
    pass


UNROLL = 64


class PE(object):
    def __init__(self, prog, mode, cls=None, prims=True, types=None, inline_props=True):
        self.prog = prog
        self.mode = mode
        self.cls = cls
        self.prims = prims
        self.types = types or {}
        self.heap = {}
        self.tells = []
        self.nid = 0
        self.pid = 0
        self.lid = 0
        self.out = []
        self.loops = []
        self.frame = None
        self.depth = 0
        self.events = []
        self.steps = 0
        self.nodes = {}
        self.ctxclass = prog.find_class('AVBIOContext')
        self.inline_props = inline_props
        self.inline_only = None     # names of context methods to inline when prims is off
        self.raw_fields = False     # assign through property setters as if they were plain fields
        self.order = None           # assumed byte order of the context
        self.asserts = []
        self.heads = {}             # conditions insisted on before the first node of a list
        self.bpath = ()
        self.pure = 0
        self.ctxself = None
        self.cur = None

    # -- helpers ---------------------------------------------------------
    def new(self, kind, cls=None):
        self.nid += 1
        o = HObj(self.nid, kind, cls, tuple(self.loops))
        self.heap[o.id] = o
        return ('obj', o.id)

    def ho(self, t):
        return self.heap.get(t[1]) if t[0] == 'obj' else None

    def make_self(self, cls):
        t = self.new('inst', cls)
        self.heap[t[1]].sym = ('self',)
        if cls is not None and cls.is_subclass('list'):
            self.heap[t[1]].meta['listlike'] = True
        if cls is not None and (cls.is_subclass('dict') or cls.is_subclass('OrderedDict')):
            self.heap[t[1]].meta['dictlike'] = True
        return t

    def emit(self, node, at=None):
        at = at or self.cur
        node.line = getattr(at, 'lineno', 0)
        node.file = self.frame.module.rel if self.frame else ''
        node.func = self.frame.func.qual if self.frame and self.frame.func else ''
        self.out.append(node)
        return node

    def opaque(self, reason, at=None):
        self.emit(Opaque(reason), at)
        return unk(reason)

    def event(self, kind, *data, **kw):
        self.events.append((kind, self.frame.module.rel if self.frame else '',
                            getattr(self.cur, 'lineno', 0), data))

    def prim(self, kind, val=None, size=None, endian=None):
        p = P(kind, val)
        p.size = size
        p.endian = endian
        self.pid += 1
        p.id = self.pid
        self.nodes[p.id] = p
        p.bpath = self.bpath
        self.emit(p)
        return p

    # -- running a function ------------------------------------------------
    def run(self, func, selfterm, args, kwargs=None):
        return self.call_func(func, selfterm, list(args), kwargs or {}, None)

    def call_func(self, func, selfterm, args, kwargs, at, yield_handler=None, closure=None):
        if self.depth > 24:
            return self.opaque('inlining too deep: %s' % func.qual, at)
        node = func.node
        a = node.args
        fr = Frame(func, func.module, func.cls, selfterm, closure)
        fr.yield_handler = yield_handler
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if func.kind in ('method', 'getter', 'setter') and selfterm is not None:
            vals = [selfterm] + vals
        elif func.kind == 'class':
            vals = [('cls', func.cls)] + vals
        env = fr.env
        defaults = a.defaults
        for i, pn in enumerate(params):
            if i < len(vals):
                env[pn] = vals[i]
            elif pn in kwargs:
                env[pn] = kwargs.pop(pn)
            else:
                di = i - (len(params) - len(defaults))
                if 0 <= di < len(defaults):
                    saved = self.frame
                    self.frame = Frame(func, func.module, func.cls)
                    try:
                        env[pn] = self.eval(defaults[di])
                    finally:
                        self.frame = saved
                else:
                    env[pn] = unk('missing arg %s' % pn)
        if a.vararg:
            env[a.vararg.arg] = ('tup',) + tuple(vals[len(params):])
        for ka, kd in zip(a.kwonlyargs, a.kw_defaults):
            if ka.arg in kwargs:
                env[ka.arg] = kwargs.pop(ka.arg)
            elif kd is not None:
                saved = self.frame
                self.frame = Frame(func, func.module, func.cls)
                try:
                    env[ka.arg] = self.eval(kd)
                finally:
                    self.frame = saved
            else:
                env[ka.arg] = unk('kw')
        if a.kwarg:
            d = self.new('dict')
            for k, v in kwargs.items():
                self.heap[d[1]].keyed[C(k)] = v
            env[a.kwarg.arg] = d
        saved = self.frame
        self.frame = fr
        self.depth += 1
        savedcur = self.cur
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            st = self.block(node.body)
        finally:
            self.frame = saved
            self.depth -= 1
            self.cur = savedcur
        if st is None:
            return T.NONE
        if st[0] == 'ret':
            return st[1]
        if st[0] == 'raise':
            return unk('raise')
        return unk('status %s' % st[0])

    # -- statements ---------------------------------------------------------
    def block(self, stmts):
        stmts = list(stmts)
        for i, s in enumerate(stmts):
            self.steps += 1
            if self.steps > 60000:
                self.opaque('walk limit')
                return None
            self.cur = s
            if isinstance(s, ast.If):
                st = self.stmt_if(s, stmts[i + 1:])
                if st is not NotImplemented:
                    return st
                continue
            if isinstance(s, ast.With):
                for it in s.items:
                    v = self.eval(it.context_expr)
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v)
                return self.block(list(s.body) + stmts[i + 1:])
            if isinstance(s, ast.Try):
                trivial = all(self._reraises(h) for h in s.handlers)
                if not trivial:
                    if self._effectful(s.body):
                        self.opaque('try/except around wire access', s)
                    self.block(s.body)
                    self.havoc_stmts([s])
                    continue
                return self.block(list(s.body) + list(s.orelse) + list(s.finalbody) + stmts[i + 1:])
            st = self.stmt(s)
            if st is not None:
                return st
        return None

    def _reraises(self, h):
        last = h.body[-1] if h.body else None
        return isinstance(last, ast.Raise)

    def _effectful(self, stmts):
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    return True
        return False

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.eval(s.value)
            return None
        if isinstance(s, ast.Assign):
            v = self.eval(s.value)
            for t in s.targets:
                self.assign(t, v)
            return None
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value))
            return None
        if isinstance(s, ast.AugAssign):
            cur = self.eval(self._as_load(s.target))
            v = self.eval(s.value)
            o = self.ho(cur)
            if o is not None and o.kind == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(o, v)
                return None
            if o is not None and o.meta.get('listlike'):
                self.list_extend(o, v)
                return None
            self.assign(s.target, self.binop(s.op, cur, v))
            return None
        if isinstance(s, ast.Return):
            return ('ret', self.eval(s.value) if s.value is not None else T.NONE)
        if isinstance(s, ast.Raise):
            return ('raise',)
        if isinstance(s, ast.Pass) or isinstance(s, (ast.Import, ast.ImportFrom)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    self.frame.env[a.asname or a.name.split('.')[0]] = ('extname', a.name)
            return None
        if isinstance(s, ast.Break):
            return ('brk',)
        if isinstance(s, ast.Continue):
            return ('cont',)
        if isinstance(s, ast.Assert):
            c = T.truth(self.eval(s.test))
            self.note_assert(c)
            if is_c(c) and not cv(c):
                return ('raise',)
            return None
        if isinstance(s, ast.For):
            return self.stmt_for(s)
        if isinstance(s, ast.While):
            return self.stmt_while(s)
        if isinstance(s, (ast.FunctionDef,)):
            f = Func(s, self.frame.module, self.frame.cls, 'func')
            self.frame.env[s.name] = ('fn', f, None, self.frame)
            return None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.frame.env.pop(t.id, None)
                else:
                    self.event('delete', ast.dump(t))
            return None
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.ClassDef)):
            return None
        self.opaque('statement %s' % type(s).__name__, s)
        return None

    def _as_load(self, t):
        import copy
        t2 = copy.deepcopy(t)
        for n in ast.walk(t2):
            if hasattr(n, 'ctx'):
                n.ctx = ast.Load()
        return t2

    def note_assert(self, c):
        if c[0] == 'and':
            self.note_assert(c[1])
            self.note_assert(c[2])
            return
        if c[0] == 'not' and c[1][0] == 'or':
            self.note_assert(T.neg(c[1][1]))
            self.note_assert(T.neg(c[1][2]))
            return
        self.asserts.append(c)
        if not is_c(c):
            if self.out:
                n = self.out[-1]
                if n.after is None:
                    n.after = []
                n.after.append(c)
            else:
                self.heads.setdefault(id(self.out), (self.out, []))[1].append(c)
        for w in T.wires(c):
            if w in self.nodes and self.nodes[w].bpath != self.bpath[:len(self.nodes[w].bpath)] or \
                    w in self.nodes and len(self.bpath) > len(self.nodes[w].bpath):
                return      # only holds on this branch
        if c[0] == 'cmp' and c[1] in ('==', 'is') and is_c(c[3]) and c[2][0] == 'wire':
            n = self.nodes.get(c[2][1])
            if n is not None:
                n.const = c[3]
        elif c[0] == 'cmp' and c[1] == '==' and is_c(c[2]) and c[3][0] == 'wire':
            n = self.nodes.get(c[3][1])
            if n is not None:
                n.const = c[2]
        elif c[0] == 'truthy' and c[1][0] == 'wire':
            n = self.nodes.get(c[1][1])
            if n is not None and n.kind == 'bool':
                n.const = T.TRUE
        elif c[0] == 'cmp' and c[1] == 'in' and c[2][0] == 'wire' and is_c(c[3]):
            n = self.nodes.get(c[2][1])
            if n is not None:
                n.allowed = cv(c[3])

    def snapshot(self):
        return dict(self.frame.env), {k: v.clone() for k, v in self.heap.items()}

    def restore(self, snap):
        self.frame.env = dict(snap[0])
        self.heap = {k: v.clone() for k, v in snap[1].items()}

    def escapes(self, stmts):
        """contains return/break/continue that leaves this statement list"""
        def w(n, inloop):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return False
            if isinstance(n, ast.Return):
                return True
            if isinstance(n, (ast.Break, ast.Continue)) and not inloop:
                return True
            il = inloop or isinstance(n, (ast.For, ast.While))
            return any(w(c, il) for c in ast.iter_child_nodes(n))
        return any(w(s, False) for s in stmts)

    def always_raises(self, stmts):
        if not stmts:
            return False
        l = stmts[-1]
        if isinstance(l, ast.Raise):
            return not self.escapes(stmts)
        return False

    def stmt_if(self, s, rest):
        c = T.truth(self.eval(s.test))
        if is_c(c):
            body = s.body if cv(c) else s.orelse
            return self.block(list(body) + list(rest))
        if (self.always_raises(s.body) and not s.orelse):
            self.note_assert(T.neg(c))
            return NotImplemented
        esc = self.escapes(s.body) or self.escapes(s.orelse)
        snap = self.snapshot()
        saved_out = self.out
        self.out = a_out = []
        bp = self.bpath
        if not (s.orelse and self.always_raises(s.orelse)):
            self.bpath = bp + ((id(s), 0),)
        st_a = self.block(list(s.body) + (list(rest) if esc else []))
        env_a, heap_a = self.frame.env, self.heap
        self.restore(snap)
        self.out = b_out = []
        self.bpath = bp + ((id(s), 1),) if not self.always_raises(s.body) else bp
        st_b = self.block(list(s.orelse) + (list(rest) if esc else []))
        self.bpath = bp
        env_b, heap_b = self.frame.env, self.heap
        self.out = saved_out
        self.cur = s
        # a raising branch is not a path of the format
        if st_a and st_a[0] == 'raise' and not (st_b and st_b[0] == 'raise'):
            self.note_assert(T.neg(c))
            if b_out and not esc:
                self.emit(Alt(T.neg(c), b_out, [self._raise_node(s)]), s)
            else:
                self.splice(b_out)
            if esc:
                return st_b
            return NotImplemented
        if st_b and st_b[0] == 'raise' and not (st_a and st_a[0] == 'raise'):
            self.note_assert(c)
            if a_out and not esc:
                self.emit(Alt(c, a_out, [self._raise_node(s)]), s)
            else:
                self.splice(a_out)
            self.frame.env, self.heap = env_a, heap_a
            if esc:
                return st_a
            return NotImplemented
        if a_out or b_out:
            self.emit(Alt(c, a_out, b_out), s)
        self.merge(c, env_a, heap_a, env_b, heap_b)
        if st_a and st_b and st_a[0] == 'raise' and st_b[0] == 'raise':
            return ('raise',)
        if esc:
            ka = st_a[0] if st_a else None
            kb = st_b[0] if st_b else None
            if ka == kb:
                if ka == 'ret':
                    return ('ret', self.merge_val(c, st_a[1], st_b[1]))
                return st_a
            if {ka, kb} == {'ret', None}:
                va = st_a[1] if ka else T.NONE
                vb = st_b[1] if kb else T.NONE
                return ('ret', self.merge_val(c, va, vb))
            if {ka, kb} <= {None, 'cont'}:
                return ('cont',)
            return ('mix', c)
        return NotImplemented

    def splice(self, out):
        h = self.heads.get(id(out))
        if h is not None and self.out:
            n = self.out[-1]
            n.after = (n.after or []) + h[1]
        self.out.extend(out)

    def _raise_node(self, at):
        r = Raise()
        r.line = getattr(at, 'lineno', 0)
        r.file = self.frame.module.rel
        return r

    def merge_val(self, c, a, b):
        if a == b:
            return a
        return T.ite(c, a, b)

    def merge(self, c, env_a, heap_a, env_b, heap_b):
        env = {}
        for k in set(env_a) | set(env_b):
            a, b = env_a.get(k, UNSET), env_b.get(k, UNSET)
            env[k] = a if a is b or a == b else T.ite(c, a, b)
        self.frame.env = env
        heap = {}
        for k in set(heap_a) | set(heap_b):
            x, y = heap_a.get(k), heap_b.get(k)
            if x is None or y is None:
                heap[k] = x or y
                continue
            o = x.clone()
            if x.kind == 'buffer':
                n = 0
                while n < len(x.items) and n < len(y.items) and x.items[n] is y.items[n]:
                    n += 1
                if len(x.items) > n or len(y.items) > n:
                    alt = Alt(c, x.items[n:], y.items[n:])
                    ref = (x.items[n:] + y.items[n:])[0]
                    alt.line, alt.file, alt.func = ref.line, ref.file, ref.func
                    o.items = x.items[:n] + [alt]
                o.weird = x.weird or y.weird
                heap[k] = o
                continue
            for f in set(x.fields) | set(y.fields):
                a, b = x.fields.get(f, UNSET), y.fields.get(f, UNSET)
                o.fields[f] = a if a == b else T.ite(c, a, b)
            for f in set(x.keyed) | set(y.keyed):
                a, b = x.keyed.get(f, UNSET), y.keyed.get(f, UNSET)
                o.keyed[f] = a if a == b else T.ite(c, a, b)
            if x.items != y.items:
                if len(x.items) == len(y.items):
                    o.items = [p if p == q else T.ite(c, p, q) for p, q in zip(x.items, y.items)]
                else:
                    o.weird = True
                    extra = x.items if len(x.items) > len(y.items) else y.items
                    o.items = list(extra)
            if x.meta.get('appended') != y.meta.get('appended') or x.meta.get('counted') != y.meta.get('counted'):
                o.meta.pop('counted', None)
                o.meta['appended'] = -1000
            if x.elem != y.elem:
                a = x.elem if x.elem is not None else UNSET
                b = y.elem if y.elem is not None else UNSET
                o.elem = T.ite(c, a, b)
            o.weird = o.weird or x.weird or y.weird
            heap[k] = o
        self.heap = heap

    # -- loops ---------------------------------------------------------------
    def havoc_names(self, body, targets=()):
        stored = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    stored.add(n.id)
        return stored

    def havoc_stmts(self, body):
        for n in self.havoc_names(body):
            self.frame.env[n] = unk('assigned in %s' % type(body[0]).__name__)

    def carried(self, body):
        """names loaded before any unconditional store, in source order"""
        loaded, stored, assigned = set(), set(), set()

        def visit(n, uncond):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id not in stored:
                        loaded.add(m.id)
                return
            if isinstance(n, ast.Assign):
                visit(n.value, uncond)
                for t in n.targets:
                    visit(t, uncond)
                return
            if isinstance(n, ast.AugAssign):
                visit(n.value, uncond)
                if isinstance(n.target, ast.Name):
                    if n.target.id not in stored:
                        loaded.add(n.target.id)
                    assigned.add(n.target.id)
                else:
                    visit(n.target, uncond)
                return
            if isinstance(n, ast.For):
                visit(n.iter, uncond)
                visit(n.target, True)
                for s in n.body:
                    visit(s, False)
                for s in n.orelse:
                    visit(s, False)
                return
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    if n.id not in stored:
                        loaded.add(n.id)
                else:
                    assigned.add(n.id)
                    if uncond:
                        stored.add(n.id)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                own = set()
                for g in n.generators:
                    for m in ast.walk(g.target):
                        if isinstance(m, ast.Name):
                            own.add(m.id)
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id not in own and m.id not in stored:
                        loaded.add(m.id)
                return
            if isinstance(n, (ast.If, ast.While, ast.Try, ast.IfExp)):
                for fld, v in ast.iter_fields(n):
                    if isinstance(v, list):
                        for x in v:
                            if isinstance(x, ast.AST):
                                visit(x, False)
                    elif isinstance(v, ast.AST):
                        visit(v, uncond)
                return
            for x in ast.iter_child_nodes(n):
                visit(x, uncond)
        for s in body:
            visit(s, True)
        return loaded & assigned

    def stmt_for(self, s):
        if isinstance(s.iter, ast.Call):
            g = self.generator_call(s.iter)
            if g is not None:
                return self.for_generator(s, g)
        it = self.eval(s.iter)
        return self.for_over(it, lambda v: self.assign(s.target, v), s.body, s.orelse, s)

    def for_over(self, it, bind, body, orelse, at):
        k = self.iter_kind(it)
        if k[0] == 'items':
            if len(k[1]) > UNROLL and self.block_has_effects(body):
                return self.opaque('long constant loop', at) and None
            if len(k[1]) <= 512:
                for v in k[1]:
                    bind(v)
                    st = self.block(body)
                    if st is None or st[0] == 'cont':
                        continue
                    if st[0] == 'brk':
                        return None
                    if st[0] == 'ret' or st[0] == 'raise':
                        return st
                    self.opaque('conditional exit in loop', at)
                    self.havoc_stmts(body)
                    return None
                if orelse:
                    return self.block(orelse)
                return None
        if k[0] == 'ext':
            return self.ext_loop(bind, body, at)
        # unknown number of iterations
        self.lid += 1
        lid = self.lid
        if k[0] == 'iter':
            count, elem, base = k[1], k[2], k[3]
        else:
            count, elem, base = unk('iteration count'), unk('element'), None
        if callable(elem):
            elem = elem(lid)
        bind(elem)
        rec = self.loop_body(body, lid, at, count, base)
        if rec:
            n = Loop(lid, count, rec, base)
            n.order = k[4] if k[0] == 'iter' and len(k) > 4 else 1
            self.emit(n, at)
            if k[0] != 'iter':
                self.opaque('loop over unrecognised iterable', at)
        return None

    EXT_TAGS = tuple(range(0, 48)) + (0x7e, 0xfe)

    def ext_loop(self, bind, body, at):
        """`for tag in iter_ext`: one walk of the body per tag value."""
        self.lid += 1
        lid = self.lid
        tagt = ('exttag', lid)
        for n in self.carried(body):
            if n in self.frame.env:
                self.frame.env[n] = unk('loop-carried %s' % n)
        pre = dict(self.frame.env)
        cases, ignored = {}, []
        self.loops.append(lid)
        try:
            acc_env, acc_heap = dict(self.frame.env), {k: v.clone() for k, v in self.heap.items()}
            base = self.snapshot()
            for t in self.EXT_TAGS:
                self.restore(base)
                saved_out, nev, nas = self.out, len(self.events), len(self.asserts)
                self.out = out = []
                bind(C(t))
                st = self.block(body)
                self.out = saved_out
                if st is not None and st[0] == 'raise':
                    del self.events[nev:]
                    del self.asserts[nas:]
                    continue
                if st is not None and st[0] not in ('cont',):
                    out.append(self._mk_opaque('exit from the extension loop', at))
                if not out:
                    ignored.append(t)
                    continue
                cases[t] = out
                env_a, heap_a = self.frame.env, self.heap
                self.merge(('cmp', '==', tagt, C(t)), env_a, heap_a, acc_env, acc_heap)
                acc_env, acc_heap = self.frame.env, self.heap
            self.frame.env, self.heap = acc_env, acc_heap
        finally:
            self.loops.pop()
        for n in self.havoc_names(body):
            v = self.frame.env.get(n)
            if v is not None and pre.get(n) != v:
                self.frame.env[n] = unk('after extension loop')
        n = ExtLoop(tagt, cases, not ignored)
        n.ignored = ignored
        self.emit(n, at)
        return None

    def block_has_effects(self, body):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    return True
        return False

    def loop_body(self, body, lid, at, count=None, base=None):
        for n in self.carried(body):
            if n in self.frame.env:
                self.frame.env[n] = unk('loop-carried %s' % n)
        saved_out = self.out
        self.out = []
        pre = dict(self.frame.env)
        bufs = {k: len(o.items) for k, o in self.heap.items() if o.kind == 'buffer'}
        lists = {k: o.meta.get('appended', 0) for k, o in self.heap.items() if o.kind == 'list'}
        self.loops.append(lid)
        self.loopinfo = getattr(self, 'loopinfo', {})
        self.loopinfo[lid] = (count, base)
        try:
            st = self.block(body)
        finally:
            self.loops.pop()
        for k, n in lists.items():
            # one element for every round
            o = self.heap.get(k)
            if o is not None and o.meta.get('appended', 0) != n:
                o.meta.pop('counted', None)
                if n == 0 and o.meta['appended'] == 1 and o.loops == tuple(self.loops) and (st is None or st[0] == 'cont') and count is not None and not T.has_unk(count) and not o.items:
                    o.meta['counted'] = count
                elif o.loops != tuple(self.loops):
                    o.meta['appended'] = -1000
        for k, n in bufs.items():
            o = self.heap.get(k)
            if o is not None and len(o.items) > n:
                lp = Loop(lid, count if count is not None else unk('count'), o.items[n:], base)
                lp.line, lp.file, lp.func = o.items[n].line, o.items[n].file, o.items[n].func
                if st is not None and st[0] not in ('cont', 'raise'):
                    o.weird = True
                o.items = o.items[:n] + [lp]
        rec = self.out
        self.out = saved_out
        if st is not None and st[0] not in ('cont', 'raise'):
            if rec or self.pure_break_matters(st):
                if rec:
                    rec.append(self._mk_opaque('early exit from loop', at))
        for n in self.havoc_names(body):
            v = self.frame.env.get(n)
            if v is not None and pre.get(n) != v:
                self.frame.env[n] = ('loopout', lid, v) if not T.has_unk(v) else unk('after loop')
        return rec

    def pure_break_matters(self, st):
        return False

    def _mk_opaque(self, reason, at):
        o = Opaque(reason)
        o.line = getattr(at, 'lineno', 0)
        o.file = self.frame.module.rel
        o.func = self.frame.func.qual
        return o

    def iter_kind(self, it):
        """('items', [...]) known elements; ('ext', stream); ('iter', count, elem, base)"""
        if it[0] == 'c':
            v = cv(it)
            if isinstance(v, (tuple, list)):
                return ('items', [self.lift(x) for x in v])
            if isinstance(v, bytes):
                return ('items', [C(x) for x in v])
            if isinstance(v, str):
                return ('items', [C(x) for x in v])
            if isinstance(v, (set, frozenset)):
                return ('items', [self.lift(x) for x in sorted(v, key=repr)])
            return ('?',)
        if it[0] == 'tup':
            return ('items', list(it[1:]))
        if it[0] == 'range':
            lo, hi, step = it[1], it[2], it[3]
            if is_c(lo) and is_c(hi) and is_c(step):
                try:
                    r = range(cv(lo), cv(hi), cv(step))
                    if len(r) <= UNROLL:
                        return ('items', [C(x) for x in r])
                except Exception:
                    return ('?',)
            if is_c(step) and cv(step) == 1:
                cnt = T.add(hi, lo, -1)
                if is_c(lo):
                    return ('iter', cnt, lambda lid: T.add(('idxvar', lid), lo), None)
            if is_c(step) and isinstance(cv(step), int) and cv(step) > 1 and is_c(lo) and cv(lo) == 0:
                # range(0, n*k, k)
                q = T.op_('//', hi, step)
                if T.mul(q, step) == hi:
                    return ('iter', q, lambda lid: T.mul(('idxvar', lid), step), None)
            if is_c(step) and cv(step) == -1:
                return ('iter', T.add(lo, hi, -1), lambda lid: T.add(lo, ('idxvar', lid), -1), None, -1)
            return ('?',)
        if it[0] == 'iterext':
            return ('ext', it[1])
        if it[0] == 'enumerate':
            k = self.iter_kind(it[1])
            if k[0] == 'items':
                return ('items', [('tup', T.add(it[2], C(i)), v) for i, v in enumerate(k[1])])
            if k[0] == 'iter':
                e = k[2]
                return ('iter', k[1], lambda lid: ('tup', T.add(it[2], ('idxvar', lid)), e(lid) if callable(e) else e), k[3]) + k[4:]
            return ('?',)
        if it[0] == 'zip':
            ks = [self.iter_kind(x) for x in it[1:]]
            if all(k[0] == 'items' for k in ks):
                return ('items', [('tup',) + x for x in zip(*[k[1] for k in ks])])
            if all(k[0] == 'iter' for k in ks):
                cnt = ks[0][1]
                bases = tuple(k[3] for k in ks)
                es = [k[2] for k in ks]
                return ('iter', cnt, lambda lid: ('tup',) + tuple(e(lid) if callable(e) else e for e in es),
                        ('zip',) + tuple(b for b in bases if b is not None))
            # a known sequence zipped with an unknown one
            items = [k for k in ks if k[0] == 'items']
            if items and all(k[0] in ('items', 'iter') for k in ks):
                n = min(len(k[1]) for k in items)
                out = []
                for i in range(n):
                    row = ['tup']
                    for k, src in zip(ks, it[1:]):
                        if k[0] == 'items':
                            row.append(k[1][i])
                        else:
                            b = k[3]
                            row.append(('idx', b, C(i)) if b is not None else unk('zip'))
                    out.append(tuple(row))
                return ('items', out)
            return ('?',)
        if it[0] == 'reversed':
            k = self.iter_kind(it[1])
            if k[0] == 'items':
                return ('items', list(reversed(k[1])))
            if k[0] == 'iter':
                return ('iter', k[1], k[2], k[3], -1)
            return ('?',)
        if it[0] == 'sorted':
            k = self.iter_kind(it[1])
            if k[0] == 'items' and all(is_c(x) for x in k[1]):
                try:
                    return ('items', [C(x) for x in sorted(cv(y) for y in k[1])])
                except Exception:
                    return ('?',)
            if k[0] == 'iter':
                return ('iter', k[1], k[2], k[3], 0)
            return ('?',)
        if it[0] == 'call' and it[1] in ('list', 'tuple', 'iter', 'bytearray', 'bytes', 'copy') and len(it) == 3:
            return self.iter_kind(it[2])
        if it[0] == 'items':
            b = it[1]
            return ('iter', ('len', b), ('tup', ('key', b), ('val', b)), b)
        if it[0] == 'values':
            return ('iter', ('len', it[1]), ('val', it[1]), it[1])
        if it[0] == 'keys':
            return ('iter', ('len', it[1]), ('key', it[1]), it[1])
        if it[0] == 'obj':
            o = self.heap.get(it[1])
            if o is None:
                return ('?',)
            self.note_deref(o, 'its elements')
            if o.sym is not None and o.meta.get('listlike') and o.elem is None and not o.items:
                b = o.sym
                return ('iter', ('len', b), ('elem', b), b)
            if o.sym is not None and o.meta.get('dictlike') and not o.keyed:
                b = o.sym
                return ('iter', ('len', b), ('key', b), b)
            if o.kind == 'list' or o.meta.get('listlike'):
                if o.elem is None and not o.weird:
                    return ('items', list(o.items))
                if not o.items and o.elem is not None and not o.weird:
                    return ('iter', o.meta.get('counted', ('len', it)), o.elem, it)
                return ('?',)
            if o.kind == 'dict' and not o.weird and o.elem is None:
                return ('items', list(o.keyed.keys()))
            return ('?',)
        if it[0] in ('attr', 'elem', 'idx', 'val', 'slice', 'param'):
            if it[0] == 'slice':
                base, lo, hi = it[1], it[2], it[3]
                if (lo == T.NONE or lo == C(0)) and hi == T.NONE:
                    return self.iter_kind(base)
                if is_c(lo) and is_c(hi) and cv(hi) is not None and 0 <= (cv(lo) or 0) <= cv(hi) <= 256:
                    return ('items', [('idx', base, C(i)) for i in range(cv(lo) or 0, cv(hi))])
                return ('iter', ('len', it), ('elem', it), it)
            return ('iter', ('len', it), ('elem', it), it)
        if it[0] == 'wire':
            return ('iter', ('len', it), ('elem', it), it)
        return ('?',)

    def stmt_while(self, s):
        # counted form: while i < n: ...; i += 1
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) \
                and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and not s.orelse:
            name = t.left.id
            init = self.frame.env.get(name)
            incs = [x for x in s.body if self._is_inc(x, name)]
            stores = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == name
                      and isinstance(n.ctx, ast.Store)]
            has_cont = self._has(s.body, ast.Continue)
            if init is not None and is_c(init) and len(incs) == 1 and incs[0] is s.body[-1] and len(stores) == 1 and not has_cont:
                hi = self.eval(t.comparators[0])
                body = s.body[:-1]
                nm = ast.Name(id=name, ctx=ast.Store())
                r = self.for_over(('range', init, hi, C(1)), lambda v: self.assign(nm, v), body, [], s)
                self.frame.env[name] = hi
                return r
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) \
                and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) \
                and t.comparators[0].value == 0 or isinstance(t, ast.Name):
            # countdown: while n: ... n -= 1
            name = t.id if isinstance(t, ast.Name) else t.left.id
            init = self.frame.env.get(name)
            decs = [x for x in s.body if self._is_inc(x, name, -1)]
            stores = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == name
                      and isinstance(n.ctx, ast.Store)]
            if init is not None and len(decs) == 1 and len(stores) == 1 and not self._has(s.body, ast.Continue):
                body = [x for x in s.body if x is not decs[0]]
                others = [n for x in body for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == name]
                if not others:
                    r = self.for_over(('range', C(0), init, C(1)), lambda v: None, body, [], s)
                    self.frame.env[name] = C(0)
                    return r
        if self.pad_loop(s):
            return None
        # constant unrolling of pure loops
        n = 0
        while n < UNROLL:
            c = T.truth(self.eval(t))
            if not is_c(c):
                break
            if not cv(c):
                return None
            st = self.block(s.body)
            n += 1
            if st is None or st[0] == 'cont':
                continue
            if st[0] == 'brk':
                return None
            if st[0] in ('ret', 'raise'):
                return st
            break
        if n:
            self.opaque('while loop', s)
        elif self.block_has_effects(s.body) and self.loop_has_wire(s):
            self.opaque('while loop', s)
        self.havoc_stmts([s])
        return None

    def pad_loop(self, s):
        """while f.tell() - start < K: write one byte"""
        if s.orelse or not any(isinstance(x, ast.Attribute) and x.attr == 'tell' for x in ast.walk(s.test)):
            return False
        c = T.truth(self.eval(s.test))
        if c[0] == 'not' and c[1][0] == 'cmp' and c[1][1] in ('<', '<=', '>', '>='):
            c = ('cmp', {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[c[1][1]]) + c[1][2:]
        if c[0] != 'cmp' or c[1] not in ('<', '>', '!=', '<=', '>='):
            return False
        op, a, b = c[1], c[2], c[3]
        d = T.add(a, b, -1)
        if op in ('>', '>='):
            d = T.add(b, a, -1)
        # d is now - start - K
        marks = [t for t in T.walk(d) if t[0] == 'call' and len(t) == 3 and t[1] == 'tell']
        if len(marks) != 2 or not self.tells:
            return False
        now = ('call', 'tell', C(len(self.tells) - 1))
        start = [m for m in marks if m != now]
        if len(start) != 1:
            return False
        k = T.add(T.add(start[0], now, -1), d)
        if not is_c(k):
            return False
        total = -cv(k) + (1 if op in ('<=', '>=') else 0)
        o, pos = self.tells[cv(start[0][2])]
        if o is not self.out:
            return False
        saved = self.snapshot(), self.out, self.pid, len(self.events)
        self.out = []
        self.loops.append(-1)
        try:
            self.block(s.body)
        finally:
            self.loops.pop()
        eff = self.out
        self.restore(saved[0])
        self.out = saved[1]
        del self.events[saved[3]:]
        if len(eff) != 1 or not isinstance(eff[0], P) or not (eff[0].kind in ('u8', 's8') or eff[0].kind == 'raw' and eff[0].size == C(1)):
            return False
        p = self.prim('raw', ('pad', eff[0].val))
        p.size = ('padto', pos, total)
        return True

    def loop_has_wire(self, s):
        saved = self.snapshot(), self.out, self.pid, len(self.events)
        self.out = []
        self.loops.append(-1)
        try:
            self.block(s.body)
        finally:
            self.loops.pop()
        eff = self.out
        self.restore(saved[0])
        self.out = saved[1]
        del self.events[saved[3]:]
        return bool(eff)

    def _has(self, body, kind):
        def w(n):
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef)):
                return False
            if isinstance(n, kind):
                return True
            return any(w(c) for c in ast.iter_child_nodes(n))
        return any(w(s) for s in body)

    def _is_inc(self, x, name, k=1):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name \
                and isinstance(x.value, ast.Constant) and x.value.value == 1:
            return isinstance(x.op, ast.Add if k == 1 else ast.Sub)
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
                and x.targets[0].id == name and isinstance(x.value, ast.BinOp) \
                and isinstance(x.value.left, ast.Name) and x.value.left.id == name \
                and isinstance(x.value.right, ast.Constant) and x.value.right.value == 1:
            return isinstance(x.value.op, ast.Add if k == 1 else ast.Sub)
        return False

    # generator inlining -----------------------------------------------------
    def generator_call(self, call):
        """(Func, self, args, kwargs, closure) when call is an in-repo generator"""
        f = self.eval_callee(call.func)
        if f is None:
            return None
        fn = None
        if f[0] == 'fn':
            fn, st, clo = f[1], f[2], f[3] if len(f) > 3 else None
        elif f[0] == 'bm':
            r = self.find_method(f[1], f[2])
            if isinstance(r, Func):
                fn, st, clo = r, f[1], None
                if fn.kind == 'static':
                    st = None
        if fn is None or fn.name == 'iter_ext':
            return None
        if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node)):
            return None
        args, kw = self.eval_args(call)
        return fn, st, args, kw, clo

    def for_generator(self, s, g):
        fn, st, args, kw, clo = g
        caller = self.frame
        bad = []

        def handler(v):
            saved = self.frame
            gen = self.frame
            self.frame = caller
            try:
                self.assign(s.target, v)
                r = self.block(s.body)
                if r is not None and r[0] != 'cont':
                    bad.append(r)
            finally:
                self.frame = gen
            return T.NONE
        self.call_func(fn, st, args, kw, s, yield_handler=handler, closure=clo)
        if bad:
            self.opaque('exit from a loop over a generator', s)
        return None

    # -- assignment -----------------------------------------------------------
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, unk('star'))
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.index(v, C(i), n))
            return
        if isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.setattr(base, t.attr, v)
            return
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(base, t.slice, v)
                return
            self.setitem(base, self.eval(t.slice), v)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v)
            return
        self.opaque('assignment target', t)

    def setattr(self, base, name, v):
        o = self.ho(base)
        if o is not None:
            if o.kind == 'inst' and o.cls is not None and isinstance(o.cls, Class) and not self.raw_fields:
                st = o.cls.find_setter(name)
                if st is not None:
                    self.call_func(st, base, [v], {}, self.cur)
                    return
            if o.sym is not None and self.mode == 'w':
                self.event('set-on-write', T.show(('attr', o.sym, name)))
            o.fields[name] = v
            if o.sym is not None:
                self.event('set', name, v)
            # list element copies that share identity keep one heap object
            return
        if base[0] in ('attr', 'elem', 'idx', 'val', 'param', 'self'):
            self.event('set-path', T.show(('attr', base, name)), v)
            if self.mode == 'w':
                self.event('set-on-write', T.show(('attr', base, name)))
            return
        if base[0] == 'root':
            self.event('set-root', name, v)
            return
        if base[0] in ('ite',):
            self.event('set-unknown', name)
            return
        self.event('set-unknown', name)

    def setitem(self, base, k, v):
        if base[0] == 'pd':
            return self.setattr(base[1], cv(k), v) if is_c(k) and isinstance(cv(k), str) else None
        o = self.ho(base)
        if o is None:
            if base[0] in ('attr', 'elem', 'idx', 'val', 'param'):
                self.event('set-path', T.show(('idx', base, k)), v)
                if self.mode == 'w':
                    self.event('set-on-write', T.show(('idx', base, k)))
            return
        if o.kind == 'list' and is_c(k) and isinstance(cv(k), int):
            if not o.weird and o.elem is None and -len(o.items) <= cv(k) < len(o.items):
                o.items[cv(k)] = v
                return
            if o.meta.get('filled') is not None:
                o.keyed[k] = v
                return
        if o.kind == 'list' or o.meta.get('listlike'):
            if k[0] == 'idxvar' and (o.meta.get('filled') is not None or o.elem is not None):
                o.elem = v
                o.items = []
                return
            o.weird = True
            return
        if o.meta.get('dictlike') or o.kind == 'dict':
            if is_c(k) and not o.meta.get('dictlike'):
                o.keyed[k] = v
                return
            o.keyed[('dyn', k)] = v
            return
        o.weird = True

    def set_slice(self, base, sl, v):
        o = self.ho(base)
        lo = self.eval(sl.lower) if sl.lower else T.NONE
        hi = self.eval(sl.upper) if sl.upper else T.NONE
        if o is not None and o.kind == 'list' and lo == T.NONE and hi == T.NONE:
            o.items, o.elem = [], None
            self.list_extend(o, v)
            return
        if o is not None:
            o.meta.setdefault('slices', []).append((lo, hi, v))
            o.keyed[('slice', lo, hi)] = v
            return
        self.event('set-slice', T.show(base), lo, hi, v)

    def list_append(self, o, v):
        if tuple(self.loops) == o.loops:
            if o.elem is not None:
                o.weird = True
            o.items.append(v)
        else:
            # appended inside loops entered after the list was created
            vo = self.ho(v)
            if vo is not None and vo.kind in ('inst', 'dict', 'list') and vo.loops[:len(self.loops)] != tuple(self.loops) \
                    and len(vo.loops) < len(self.loops) and vo.sym is None:
                self.event('shared-element', o.id, vo.id)
            if o.items:
                o.weird = True
            o.meta['appended'] = o.meta.get('appended', 0) + 1
            o.meta.pop('counted', None)
            if o.elem is not None and o.elem != v:
                o.elem = T.ite(('either', self.nid), v, o.elem) if False else ('either', v, o.elem)
            else:
                o.elem = v

    def list_extend(self, o, v):
        k = self.iter_kind(v)
        if k[0] == 'items':
            for x in k[1]:
                self.list_append(o, x)
            return
        if k[0] == 'iter' and not o.items and o.elem is None:
            e = k[2]
            o.elem = e(self.lid) if callable(e) else e
            o.meta['count'] = k[1]
            if tuple(self.loops) == o.loops and not o.meta.get('appended') and not T.has_unk(k[1]):
                o.meta['counted'] = k[1]
            o.meta['appended'] = o.meta.get('appended', 0) + 1
            return
        vo = self.ho(v)
        o.meta['appended'] = -1000
        o.meta.pop('counted', None)
        if vo is not None and vo.elem is not None and not vo.items and not o.items and o.elem is None:
            o.elem = vo.elem
            return
        if v[0] == 'wire' and not o.items and o.elem is None:
            o.elem = ('elem', v)
            return
        o.weird = True

    # -- expressions ------------------------------------------------------------
    def lift(self, v):
        if isinstance(v, (list,)):
            t = self.new('list')
            self.heap[t[1]].items = [self.lift(x) for x in v]
            return t
        if isinstance(v, dict):
            t = self.new('dict')
            for k, x in v.items():
                self.heap[t[1]].keyed[C(k)] = self.lift(x)
            return t
        if isinstance(v, (set,)):
            return C(frozenset(v))
        if isinstance(v, tuple):
            try:
                hash(v)
                return C(v)
            except TypeError:
                return ('tup',) + tuple(self.lift(x) for x in v)
        return C(v)

    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return unk(type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return C(n.value)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            elif isinstance(v, ast.FormattedValue):
                x = self.eval(v.value)
                if v.format_spec is None and is_c(x) and isinstance(cv(x), (str, int)):
                    parts.append(C(str(cv(x))))
                else:
                    return ('call', 'fstring') + tuple(parts) + (x,)
        if all(is_c(p) for p in parts):
            return C("".join(cv(p) for p in parts))
        return unk('fstring')

    def e_Name(self, n):
        f = self.frame
        while f is not None:
            if n.id in f.env:
                return f.env[n.id]
            f = f.parent
        return self.global_name(self.frame.module, n.id)

    def global_name(self, module, name):
        r = self.prog.resolve_name(module, name)
        return self.from_resolved(r, name)

    def from_resolved(self, r, name):
        if isinstance(r, Class):
            return ('cls', r)
        if isinstance(r, Func):
            return ('fn', r, None, None)
        if isinstance(r, Module):
            return ('mod', r)
        if isinstance(r, tuple):
            if r[0] == 'global':
                vals = r[1].globals[r[2]]
                if len(vals) == 1 and vals[0] is not None:
                    try:
                        return self.lift(fold(self.prog, r[1], vals[0]))
                    except (ValueError, TypeError):
                        return ('global', r[1].name, r[2])
                if r[2] == 'unicode' or r[2] == 'long':
                    return ('builtin', 'str')
                return ('global', r[1].name, r[2])
            if r[0] == 'extname':
                return ('extname', r[1] + '.' + r[2])
            if r[0] == 'extmod':
                return ('extname', r[1])
        return ('builtin', name)

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr, n)

    def getattr(self, base, name, at=None):
        if base[0] == 'obj':
            o = self.heap[base[1]]
            if name in o.fields:
                v = o.fields[name]
                if o.sym is not None or o.kind == 'inst':
                    if self.mode == 'r' and v[0] in ('wire', 'ite', 'either') and self.is_ref(v):
                        self.event('deref-in-read', T.show(o.sym or ('attr', ('new',), o.cls.name if o.cls else '?')), name)
                if any(x == UNSET for x in T.walk(v)) and o.sym is not None:
                    v = self.fill_unset(v, ('attr', o.sym, name))
                return v
            if name == 'root':
                return ('root',)
            if name == 'property_data':
                return ('pd', base)
            if o.kind == 'inst' and isinstance(o.cls, Class):
                r = self.class_attr(o.cls, name, base)
                if r is not None:
                    return r
            if o.sym is not None:
                if name == '__class__':
                    return ('cls', o.cls)
                return ('attr', o.sym, name)
            if o.kind in ('list', 'dict', 'buffer') or o.meta.get('listlike') or o.meta.get('dictlike'):
                return ('bm', base, name)
            if o.kind == 'inst' and isinstance(o.cls, Class):
                return ('attr', base, name)
            return ('bm', base, name)
        if base[0] == 'self':
            if name == 'root':
                return ('root',)
            return ('attr', base, name)
        if base[0] == 'root':
            if name in ('ictx', 'octx'):
                return ('ctx', name)
            if name == 'create':
                return ('create',)
            return ('attr', base, name)
        if base[0] == 'ctx':
            if name == 'byte_order':
                if self.order is not None:
                    return C(self.order)
                return ('attr', base, name)
            return ('bm', base, name)
        if base[0] in ('stream', 'create', 'pd', 'super'):
            if base[0] == 'create':
                return ('newinst', name)
            return ('bm', base, name)
        if base[0] == 'mod':
            r = self.prog.resolve_name(base[1], name)
            return self.from_resolved(r, name)
        if base[0] == 'cls':
            c = base[1]
            if name == '__new__':
                return ('clsnew', c)
            if name == '__name__':
                return C(c.name)
            f = c.find_method(name)
            if isinstance(f, Func):
                if f.kind == 'static':
                    return ('fn', f, None, None)
                return ('fn', f, None, None)
            if isinstance(f, tuple):
                return ('extm', c, name)
            a = c.find_assign(name)
            if a is not None:
                try:
                    return self.lift(fold(self.prog, a[1].module, a[0]))
                except (ValueError, TypeError):
                    return ('attr', ('clsref', c.name), name)
            return ('attr', ('clsref', c.name), name)
        if base[0] in ('extname', 'builtin'):
            return ('extname', base[1] + '.' + name)
        if base[0] in ('attr', 'elem', 'idx', 'val', 'param'):
            c = self.types.get(base)
            if name == 'root':
                return ('root',)
            if name == 'property_data':
                return ('pd', base)
            if c is not None:
                r = self.class_attr(c, name, base)
                if r is not None:
                    return r
            return ('attr', base, name)
        if base[0] == 'wire':
            if self.mode == 'r' and name == 'value' and self.is_ref(base):
                self.event('deref-in-read', 'a reference just read', name)
            return ('attr', base, name)
        if base[0] == 'ite':
            return T.ite(base[1], self.getattr(base[2], name), self.getattr(base[3], name))
        if base[0] == 'c' or base[0] in ('call', 'cat', 'slice', 'tup'):
            return ('bm', base, name)
        if base[0] == 'unset':
            return UNSET
        return ('attr', base, name) if base[0] != 'unk' else unk('attr of unknown')

    def fill_unset(self, v, path):
        if v == UNSET:
            return path
        if v[0] == 'ite':
            return T.ite(v[1], self.fill_unset(v[2], path), self.fill_unset(v[3], path))
        return v

    def class_attr(self, c, name, base):
        """class-level meaning of attribute `name` on an instance, or None"""
        pn = {p[0] for p in self.pdefs(c)}
        if name in pn:
            return None
        g = c.find_property(name)
        if g is not None:
            if not self.inline_props:
                return None
            saved_out, saved_ev = self.out, len(self.events)
            self.out = []
            self.pure += 1
            try:
                v = self.call_func(g, base, [], {}, self.cur)
            finally:
                self.pure -= 1
            eff = self.out
            self.out = saved_out
            if eff or T.has_unk(v) or v[0] in ('loopout',):
                if eff:
                    self.opaque('property %s.%s has wire effects' % (c.name, name))
                sym = self.heap[base[1]].sym if base[0] == 'obj' else base
                return ('attr', sym if sym is not None else base, name)
            return v
        f = c.find_method(name)
        if f is not None and not (isinstance(f, tuple) and f[1] == 'object' and name not in ('__init__',)):
            return ('bm', base, name)
        a = c.find_assign(name)
        if a is not None and name not in ('propertydefs', 'propertydefs_dict', '__slots__'):
            if name == 'class_id' and base[0] == 'obj':
                cid = self.prog.class_id(c)
                if cid is not None:
                    return C(cid)
            try:
                return self.lift(fold(self.prog, a[1].module, a[0]))
            except (ValueError, TypeError):
                return None
        return None

    def pdefs(self, c):
        if not hasattr(self, '_pd'):
            self._pd = {}
        if c not in self._pd:
            try:
                self._pd[c] = self.prog.propertydefs(c)
            except Exception:
                self._pd[c] = []
        return self._pd[c]

    def e_Subscript(self, n):
        b = self.eval(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower) if n.slice.lower else T.NONE
            hi = self.eval(n.slice.upper) if n.slice.upper else T.NONE
            st = self.eval(n.slice.step) if n.slice.step else T.NONE
            return self.slice(b, lo, hi, st)
        return self.index(b, self.eval(n.slice))

    def slice(self, b, lo, hi, st=T.NONE):
        if is_c(b) and is_c(lo) and is_c(hi) and is_c(st):
            try:
                return C(cv(b)[slice(cv(lo), cv(hi), cv(st))])
            except Exception:
                return unk('slice')
        o = self.ho(b)
        if o is not None and o.kind == 'list' and o.elem is None and not o.weird and is_c(lo) and is_c(hi) and is_c(st):
            t = self.new('list')
            self.heap[t[1]].items = o.items[slice(cv(lo), cv(hi), cv(st))]
            return t
        if lo in (T.NONE, C(0)) and hi == T.NONE and st == T.NONE:
            return b if b[0] != 'obj' else b
        if st == C(-1) and lo == T.NONE and hi == T.NONE:
            return ('call', 'revbytes', b)
        if b[0] == 'tup' and is_c(lo) and is_c(hi) and is_c(st):
            return ('tup',) + b[1:][slice(cv(lo), cv(hi), cv(st))]
        if st == T.NONE:
            return ('slice', b, lo, hi)
        return ('slice', b, lo, hi, st)

    def is_ref(self, v):
        return any(x[0] == 'wire' and self.nodes.get(x[1]) is not None and self.nodes[x[1]].kind == 'ref' for x in T.walk(v))

    def note_deref(self, o, what):
        """taking an element out of a reference list resolves it"""
        if self.mode == 'r' and o.meta.get('listlike') and o.kind == 'inst':
            vals = list(o.items) + ([o.elem] if o.elem is not None else []) + list(o.keyed.values())
            if any(self.is_ref(v) for v in vals):
                self.event('deref-in-read', o.cls.name if o.cls else 'list', what)

    def index(self, b, k, n=None):
        if self.ho(b) is not None:
            self.note_deref(self.ho(b), 'an element')
        if is_c(b) and is_c(k):
            try:
                return self.lift(cv(b)[cv(k)])
            except Exception:
                return unk('index')
        if b[0] == 'tup' and is_c(k):
            try:
                return b[1:][cv(k)]
            except Exception:
                return unk('index')
        if b[0] == 'unpack':
            # ('unpack', fmt, src) indexed
            if n == 1 and is_c(k) and cv(k) == 0 or True:
                return ('unpackitem', b[1], b[2], k)
        if b[0] == 'pd':
            if is_c(k) and isinstance(cv(k), str):
                return self.getattr(b[1], cv(k))
            return unk('property_data[]')
        o = self.ho(b)
        if o is not None:
            if k in o.keyed:
                return o.keyed[k]
            if o.kind == 'list' or (o.meta.get('listlike') and o.sym is None):
                if is_c(k) and isinstance(cv(k), int) and o.elem is None and not o.weird:
                    try:
                        return o.items[cv(k)]
                    except IndexError:
                        return unk('index out of range')
                if k[0] in ('idxvar',) and o.elem is not None and not o.items:
                    return o.elem
                if k[0] in ('idxvar',) and o.elem is None and o.items and len(set(o.items)) == 1:
                    return o.items[0]
                return unk('list element')
            if o.sym is not None:
                if k[0] == 'idxvar':
                    return ('elem', o.sym)
                if k == ('key', o.sym):
                    return ('val', o.sym)
                return ('idx', o.sym, k)
            if o.kind == 'dict':
                if is_c(k):
                    return unk('missing key %r' % (cv(k),))
                vs = list(o.keyed.values())
                if vs and all(is_c(x) for x in o.keyed):
                    r = unk('dict lookup')
                    return ('lookup', b, k)
                return unk('dict')
            return unk('index')
        if k[0] == 'idxvar':
            return ('elem', b) if b[0] in ('attr', 'elem', 'idx', 'val', 'wire', 'call', 'param') else unk('index')
        if k == ('key', b):
            return ('val', b)
        if b[0] == 'unk':
            return unk('index of unknown')
        if b[0] == 'ite':
            return T.ite(b[1], self.index(b[2], k, n), self.index(b[3], k, n))
        return ('idx', b, k)

    def e_Tuple(self, n):
        vals = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                k = self.iter_kind(self.eval(e.value))
                if k[0] != 'items':
                    return unk('starred')
                vals.extend(k[1])
            else:
                vals.append(self.eval(e))
        if all(is_c(v) for v in vals):
            return C(tuple(cv(v) for v in vals))
        return ('tup',) + tuple(vals)

    def e_List(self, n):
        t = self.new('list')
        vals = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                k = self.iter_kind(v)
                if k[0] != 'items':
                    self.heap[t[1]].weird = True
                    continue
                vals.extend(k[1])
            else:
                vals.append(self.eval(e))
        self.heap[t[1]].items = vals
        return t

    def e_Set(self, n):
        vals = [self.eval(e) for e in n.elts]
        if all(is_c(v) for v in vals):
            return C(frozenset(cv(v) for v in vals))
        return ('tup',) + tuple(vals)

    def e_Dict(self, n):
        t = self.new('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.eval(v)
                self.heap[t[1]].weird = True
                continue
            kk = self.eval(k)
            self.setitem(t, kk, self.eval(v))
        return t

    def e_ListComp(self, n):
        t = self.new('list')
        self._comp(n.generators, 0, lambda: self.list_append(self.heap[t[1]], self.eval(n.elt)), n)
        return t

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        self.e_ListComp(n)
        return unk('setcomp')

    def e_DictComp(self, n):
        t = self.new('dict')

        def act():
            k = self.eval(n.key)
            v = self.eval(n.value)
            self.setitem(t, k, v)
        self._comp(n.generators, 0, act, n)
        return t

    def _comp(self, gens, i, act, at):
        if i == len(gens):
            act()
            return
        g = gens[i]
        it = self.eval(g.iter)

        class _Body(ast.stmt):
            pass
        k = self.iter_kind(it)

        def one():
            conds = [T.truth(self.eval(c)) for c in g.ifs]
            if any(is_c(c) and not cv(c) for c in conds):
                return
            if any(not is_c(c) for c in conds):
                if True:
                    saved = self.out
                    self.out = []
                    self._comp(gens, i + 1, act, at)
                    eff = self.out
                    self.out = saved
                    if eff:
                        self.opaque('filtered comprehension', at)
                    else:
                        self.event('filtered-comp')
                return
            self._comp(gens, i + 1, act, at)
        saved_env = dict(self.frame.env)
        if k[0] == 'items' and len(k[1]) <= 512:
            for v in k[1]:
                self.assign(g.target, v)
                one()
        else:
            self.lid += 1
            lid = self.lid
            if k[0] == 'iter':
                count, elem, base = k[1], k[2], k[3]
            else:
                count, elem, base = unk('count'), unk('elem'), None
            self.assign(g.target, elem(lid) if callable(elem) else elem)
            saved_out = self.out
            self.out = []
            self.loops.append(lid)
            try:
                one()
            finally:
                self.loops.pop()
            rec = self.out
            self.out = saved_out
            if rec:
                nd = Loop(lid, count, rec, base)
                nd.order = k[4] if k[0] == 'iter' and len(k) > 4 else 1
                self.emit(nd, at)
                if k[0] != 'iter':
                    self.opaque('comprehension over unrecognised iterable', at)
        for nm in [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]:
            if nm in saved_env:
                self.frame.env[nm] = saved_env[nm]
            else:
                self.frame.env.pop(nm, None)

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(n.op, a, b)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%',
           ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.Pow: '**'}

    def binop(self, op, a, b):
        o = self.OPS.get(type(op))
        if o is None:
            return unk('binop')
        oa, ob = self.ho(a), self.ho(b)
        if o == '+' and (oa is not None or ob is not None):
            if oa is not None and ob is not None and oa.kind == 'list' and ob.kind == 'list':
                t = self.new('list')
                x = self.heap[t[1]]
                x.items = list(oa.items) + list(ob.items)
                x.weird = oa.weird or ob.weird or oa.elem is not None or ob.elem is not None
                return t
            return ('cat', a, b)
        if o == '*' and oa is not None and oa.kind == 'list' and len(oa.items) == 1 and oa.elem is None:
            if is_c(b) and isinstance(cv(b), int) and cv(b) <= 512:
                t = self.new('list')
                self.heap[t[1]].items = oa.items * cv(b)
                return t
            t = self.new('list')
            self.heap[t[1]].meta['filled'] = b
            self.heap[t[1]].elem = oa.items[0]
            return t
        if o == '%' and is_c(a) and isinstance(cv(a), (str, bytes)):
            if is_c(b):
                try:
                    return C(cv(a) % cv(b))
                except Exception:
                    return unk('format')
            return ('fmt', a, b)
        return T.op_(o, a, b)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            c = T.neg(T.truth(v))
            return c if is_c(c) else ('boolv', c)
        if is_c(v):
            try:
                return C({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](cv(v)))
            except Exception:
                return unk('unary')
        if isinstance(n.op, ast.USub):
            return T.mul(v, C(-1))
        if isinstance(n.op, ast.UAdd):
            return v
        return ('op', '^', v, C(-1))

    def e_BoolOp(self, n):
        vals = []
        acc = None
        for i, x in enumerate(n.values):
            v = self.eval(x)
            if acc is None:
                acc = v
                continue
            t = T.truth(acc)
            if isinstance(n.op, ast.And):
                if is_c(t):
                    acc = v if cv(t) else acc
                elif self._condlike(acc) and self._condlike(v):
                    acc = ('boolv', T.conj(T.truth(acc), T.truth(v)))
                else:
                    acc = T.ite(t, v, acc)
            else:
                if is_c(t):
                    acc = acc if cv(t) else v
                elif self._condlike(acc) and self._condlike(v):
                    acc = ('boolv', T.disj(T.truth(acc), T.truth(v)))
                else:
                    acc = T.ite(t, acc, v)
        return acc

    def _condlike(self, v):
        return v[0] in ('boolv', 'cmp', 'not', 'and', 'or', 'has', 'isinst') or (is_c(v) and isinstance(cv(v), bool))

    def e_Compare(self, n):
        left = self.eval(n.left)
        acc = T.TRUE
        names = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
                 ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c)
            acc = T.conj(acc, T.truth(self.compare(names[type(op)], left, right)))
            left = right
        return acc if is_c(acc) else ('boolv', acc)

    def compare(self, op, a, b):
        if op in ('in', 'not in'):
            if b[0] == 'pd' and is_c(a) and isinstance(cv(a), str):
                r = self.has(b[1], cv(a))
                return r if op == 'in' else T.neg(r)
            ob = self.ho(b)
            if ob is not None and ob.kind == 'list' and ob.elem is None and not ob.weird and all(is_c(x) for x in ob.items):
                b = C(tuple(cv(x) for x in ob.items))
            elif ob is not None and ob.kind == 'dict' and all(is_c(x) for x in ob.keyed):
                b = C(tuple(cv(x) for x in ob.keyed))
            if is_c(b) and not is_c(a) and isinstance(cv(b), (tuple, frozenset)):
                vs = list(cv(b))
                if isinstance(cv(b), frozenset):
                    vs = sorted(vs, key=repr)
                if len(vs) == 1:
                    return T.cmp_('==' if op == 'in' else '!=', a, C(vs[0]))
                b = C(tuple(vs))
            return T.cmp_(op, a, b)
        if op in ('is', 'is not') and is_c(b) and isinstance(cv(b), (int, str)) and not isinstance(cv(b), bool):
            return T.cmp_('==' if op == 'is' else '!=', a, b)
        return T.cmp_(op, a, b)

    def has(self, base, name):
        """presence of a property"""
        o = self.ho(base)
        if o is not None:
            if name in o.fields:
                v = o.fields[name]
                u = [x for x in T.walk(v) if x == UNSET]
                if not u:
                    return T.TRUE
                return self.present(v, ('has', o.sym or base, name))
            if o.sym is not None:
                if o.cls is not None and isinstance(o.cls, Class):
                    pn = {p[0] for p in self.pdefs(o.cls)}
                    if name not in pn and (o.cls.find_method(name) or o.cls.find_property(name) or o.cls.find_assign(name)):
                        return T.TRUE
                return ('has', o.sym, name)
            return T.FALSE
        return ('has', base, name)

    def present(self, v, dflt):
        if v == UNSET:
            return dflt if dflt[1] == ('self',) and False else T.FALSE
        if v[0] == 'ite':
            a, b = self.present(v[2], dflt), self.present(v[3], dflt)
            return T.truth(T.ite(v[1], a, b)) if not (is_c(a) and is_c(b) and a == b) else a
        return T.TRUE

    def e_IfExp(self, n):
        c = T.truth(self.eval(n.test))
        if is_c(c):
            return self.eval(n.body if cv(c) else n.orelse)
        saved_out = self.out
        snap = self.snapshot()
        self.out = a_out = []
        a = self.eval(n.body)
        env_a, heap_a = self.frame.env, self.heap
        self.restore(snap)
        self.out = b_out = []
        b = self.eval(n.orelse)
        env_b, heap_b = self.frame.env, self.heap
        self.out = saved_out
        if a_out or b_out:
            self.emit(Alt(c, a_out, b_out), n)
        self.merge(c, env_a, heap_a, env_b, heap_b)
        return T.ite(c, a, b)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Lambda(self, n):
        f = Func(n, self.frame.module, self.frame.cls, 'func')
        return ('fn', f, None, self.frame)

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else T.NONE
        f = self.frame
        h = None
        while f is not None and h is None:
            h = f.yield_handler
            f = f.parent
        if h is not None:
            return h(v)
        return unk('yield')

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        f = self.frame
        h = f.yield_handler
        if h is not None:
            k = self.iter_kind(v)
            if k[0] == 'items':
                for x in k[1]:
                    h(x)
                return T.NONE
        return self.opaque('yield from', n) if h is not None else unk('yield from')

    def e_Slice(self, n):
        return unk('slice')

    # -- calls ------------------------------------------------------------------
    def eval_args(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                k = self.iter_kind(self.eval(a.value))
                if k[0] == 'items':
                    args.extend(k[1])
                else:
                    args.append(unk('starred argument'))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                o = self.ho(v)
                if o is not None and o.kind == 'dict':
                    for kk, x in o.keyed.items():
                        if is_c(kk):
                            kw[cv(kk)] = x
            else:
                kw[k.arg] = v
        return args, kw

    def eval_callee(self, f):
        if isinstance(f, ast.Name) and f.id == 'super':
            return ('builtin', 'super')
        return self.eval(f)

    def find_method(self, base, name):
        o = self.ho(base)
        if o is not None and isinstance(o.cls, Class):
            return o.cls.find_method(name)
        if base[0] == 'super':
            return base[1].find_method(name, after=base[2])
        c = self.types.get(base)
        if c is not None:
            return c.find_method(name)
        if base[0] == 'ctx' and self.ctxclass is not None:
            return self.ctxclass.find_method(name)
        return None

    def e_Call(self, n):
        self.cur = n
        f = self.eval_callee(n.func)
        if self.mode == 'r' and isinstance(n.func, ast.Attribute) and n.func.attr == 'read_object' and f[0] in ('bm', 'attr', 'fn'):
            self.event('deref-in-read', 'a record', 'read_object()')
        # super()
        if f == ('builtin', 'super'):
            if n.args:
                args, _ = self.eval_args(n)
                if len(args) == 2 and args[0][0] == 'cls':
                    st = args[1]
                    o = self.ho(st)
                    dyn = o.cls if o is not None and isinstance(o.cls, Class) else (self.cls or args[0][1])
                    if st[0] == 'cls':
                        dyn = st[1]
                    return ('super', dyn, args[0][1], st)
                return unk('super')
            st = self.frame.selfterm
            o = self.ho(st) if st else None
            dyn = o.cls if o is not None and isinstance(o.cls, Class) else self.cls
            if self.frame.cls is None or dyn is None:
                return unk('super')
            return ('super', dyn, self.frame.cls, st)
        args, kw = self.eval_args(n)
        self.cur = n
        return self.call(f, args, kw, n)

    def call_either(self, f, args, kw, n):
        """a function chosen by a condition: the two calls as the branches of an if"""
        c = f[1]
        snap = self.snapshot()
        saved, bp = self.out, self.bpath
        res = []
        for i, g in enumerate(f[2:]):
            self.restore(snap)
            self.out = []
            self.bpath = bp + ((id(n), i),)
            v = self.call(g, list(args), dict(kw), n)
            res.append((v, self.out, self.frame.env, self.heap))
        self.out, self.bpath = saved, bp
        (va, oa, ea, ha), (vb, ob, eb, hb) = res
        if oa or ob:
            self.emit(Alt(c, oa, ob), n)
        self.merge(c, ea, ha, eb, hb)
        return T.ite(c, va, vb)

    def call(self, f, args, kw, n):
        h = f[0]
        if h == 'bm':
            return self.call_method(f[1], f[2], args, kw, n)
        if h == 'fn':
            fn, st = f[1], f[2]
            clo = f[3] if len(f) > 3 else None
            if fn.name == 'iter_ext' and self.prims:
                return ('iterext', args[0] if args else None)
            if fn.name == 'peek_data':
                return unk('peek')
            if fn.cls is not None and fn.cls is self.ctxclass and self.prims:
                # AVBIOContext.read_u8(f) through the class
                if fn.kind == 'static':
                    return self.ctx_call(fn.name, args, kw, n)
                return self.ctx_call(fn.name, args[1:], kw, n)
            if fn.kind == 'method' and st is None and args:
                # Class.method(self, ...)
                return self.call_func(Func(fn.node, fn.module, fn.cls, 'method'), args[0], args[1:], kw, n, closure=clo)
            return self.call_func(fn, st, args, kw, n, closure=clo)
        if h == 'extm':
            # list.append(self, x) / dict.__setitem__(self, k, v)
            if args:
                return self.builtin_method(args[0], f[2], args[1:], kw, n)
            return unk('ext')
        if h == 'cls':
            return self.instantiate(f[1], args, kw, n)
        if h == 'clsnew':
            c = args[0][1] if args and args[0][0] == 'cls' else f[1]
            return self.new_inst(c, kw)
        if h == 'newinst':
            if f[1] == 'from_name' and args and is_c(args[0]):
                c = self.prog.find_class(cv(args[0]))
            else:
                c = self.prog.find_class(f[1])
            if c is None:
                return unk('create')
            return self.new_inst(c, kw)
        if h == 'builtin':
            return self.builtin(f[1], args, kw, n)
        if h == 'extname':
            return self.external(f[1], args, kw, n)
        if h == 'ite' and all(x[0] in ('bm', 'attr') and x[1][0] in ('c', 'param', 'attr', 'call', 'wire', 'idx', 'elem') for x in f[2:]) \
                and not self.passes_stream(args, kw):
            return T.ite(f[1], *[self.value_method(x[1], x[2], args, kw, n) for x in f[2:]])
        if h == 'ite':
            return self.call_either(f, args, kw, n)
        if h == 'lookup':
            return self.opaque('call through a table', n)
        if self.passes_stream(args, kw) or h == 'unk':
            if self.passes_stream(args, kw):
                return self.opaque('call of %s' % T.show(f), n)
        if h == 'attr' and f[2] in ('encode', 'decode', 'strip'):
            return self.value_method(f[1], f[2], args, kw, n)
        return ('call', 'dyn', f) + tuple(args) if not any(a[0] == 'unk' for a in args) else unk('call')

    def passes_stream(self, args, kw):
        for a in list(args) + list(kw.values()):
            for x in T.walk(a):
                if x[0] in ('stream', 'ctx'):
                    return True
                if x[0] == 'obj' and self.heap.get(x[1]) is not None and self.heap[x[1]].kind == 'buffer':
                    return True
        return False

    def new_inst(self, c, kw=None):
        t = self.new('inst', c)
        o = self.heap[t[1]]
        if c.is_subclass('list'):
            o.meta['listlike'] = True
        if c.is_subclass('dict') or c.is_subclass('OrderedDict'):
            o.meta['dictlike'] = True
        if kw:
            o.meta['kw'] = dict(kw)
        return t

    def instantiate(self, c, args, kw, n):
        if c.name == 'AVBObjectRef':
            return ('refobj', args[1] if len(args) > 1 else unk('ref'))
        if c is self.ctxclass:
            return ('ctx', 'new')
        t = self.new_inst(c, kw)
        init = c.find_method('__init__')
        if isinstance(init, Func) and c.find_property('bytes_le') is None and c.name not in ('MobID',):
            saved = self.out
            self.out = []
            self.call_func(init, t, args, dict(kw), n)
            eff = self.out
            self.out = saved
            if eff:
                self.out.extend(eff)
        elif c.name == 'MobID' and (args or kw):
            self.heap[t[1]].meta['init'] = (args, kw)
        return t

    def call_method(self, base, name, args, kw, n):
        if base[0] == 'ctx':
            if base[1] == 'self':
                return self.ctxself_call(base, name, args, kw, n)
            return self.ctx_call(name, args, kw, n)
        if base[0] == 'stream':
            return self.stream_call(base, name, args, kw, n)
        if base[0] == 'super':
            m = base[1].find_method(name, after=base[2])
            st = base[3]
            if isinstance(m, Func):
                if m.kind == 'static':
                    return self.call_func(m, None, args, kw, n)
                return self.call_func(m, st, args, kw, n)
            if isinstance(m, tuple):
                return self.builtin_method(st, name, args, kw, n, is_super=True)
            return unk('super method')
        if base[0] == 'pd':
            if name == 'get' and args and is_c(args[0]):
                c = self.has(base[1], cv(args[0]))
                v = self.getattr(base[1], cv(args[0]))
                return T.ite(c, v, args[1] if len(args) > 1 else T.NONE)
            if name in ('items', 'keys', 'values'):
                return unk('property_data.%s' % name)
            if name == 'pop':
                self.event('pd-pop', *args)
            return unk('property_data.%s' % name)
        o = self.ho(base)
        if o is not None:
            if o.kind == 'buffer':
                return self.stream_call(base, name, args, kw, n)
            if o.kind == 'inst' and isinstance(o.cls, Class):
                m = o.cls.find_method(name)
                if o.meta.get('listlike') and name in LIST_METHODS and name not in ('__init__',):
                    return self.builtin_method(base, name, args, kw, n)
                if o.meta.get('dictlike') and name in DICT_METHODS and name not in ('__init__',):
                    return self.builtin_method(base, name, args, kw, n)
                if name == 'mark_modified':
                    self.event('mark')
                    return T.NONE
                if isinstance(m, Func):
                    return self.call_func(m, None if m.kind == 'static' else base, args, kw, n)
                if name == 'get' and args and is_c(args[0]):
                    c = self.has(base, cv(args[0]))
                    return T.ite(c, self.getattr(base, cv(args[0])), args[1] if len(args) > 1 else T.NONE)
            if o.kind in ('list', 'dict') or o.meta.get('listlike') or o.meta.get('dictlike'):
                return self.builtin_method(base, name, args, kw, n)
            if name in ('__init__',):
                return T.NONE
            if self.passes_stream(args, kw):
                return self.opaque('method %s' % name, n)
            return unk('method %s' % name)
        c = self.types.get(base)
        if c is not None:
            m = c.find_method(name)
            if isinstance(m, Func):
                return self.call_func(m, None if m.kind == 'static' else base, args, kw, n)
        return self.value_method(base, name, args, kw, n)

    def builtin_method(self, base, name, args, kw, n, is_super=False):
        o = self.ho(base)
        if o is None:
            return self.value_method(base, name, args, kw, n)
        if o.kind == 'inst' and not (o.meta.get('listlike') or o.meta.get('dictlike')):
            if name == '__setattr__' and len(args) == 2 and is_c(args[0]):
                o.fields[cv(args[0])] = args[1]
                return T.NONE
            if name == '__new__':
                return base
            return T.NONE
        lst = o.kind == 'list' or o.meta.get('listlike')
        if lst:
            if name == 'append' and args:
                self.list_append(o, args[0])
                return T.NONE
            if name == 'extend' and args:
                self.list_extend(o, args[0])
                return T.NONE
            if name == 'insert' and len(args) == 2:
                if args[0] == C(0) and tuple(self.loops) == o.loops and o.elem is None:
                    o.items.insert(0, args[1])
                else:
                    o.weird = True
                    self.event('insert')
                return T.NONE
            if name in ('clear',):
                o.items, o.elem = [], None
                return T.NONE
            if name in ('copy', '__iter__', 'pop', 'sort', 'index', 'remove', 'count', '__getitem__', '__contains__'):
                self.note_deref(o, '%s()' % name)
            if name in ('copy', '__iter__'):
                return ('call', 'copy', base)
            if name in ('sort', 'reverse', 'pop', 'remove'):
                o.weird = True
                return unk(name)
            if name == 'index' or name == 'count':
                return unk(name)
        else:
            if name in ('__setitem__',) and len(args) == 2:
                self.setitem(base, args[0], args[1])
                return T.NONE
            if name == 'items':
                if o.sym is not None:
                    return ('items', o.sym)
                if not o.weird and all(is_c(k) for k in o.keyed):
                    return ('tup',) + tuple(('tup', k, v) for k, v in o.keyed.items())
                return unk('items')
            if name == 'keys':
                if o.sym is not None:
                    return ('keys', o.sym)
                if not o.weird:
                    return ('tup',) + tuple(o.keyed)
            if name == 'values':
                if o.sym is not None:
                    return ('values', o.sym)
                if not o.weird:
                    return ('tup',) + tuple(o.keyed.values())
            if name == 'get' and args:
                if args[0] in o.keyed:
                    return o.keyed[args[0]]
                if is_c(args[0]) and o.sym is None and not o.weird and all(is_c(k) for k in o.keyed):
                    return args[1] if len(args) > 1 else T.NONE
                if o.sym is not None:
                    return ('idx', o.sym, args[0])
                return ('lookup', base, args[0])
            if name == 'update' and args:
                vo = self.ho(args[0])
                if vo is not None and vo.kind == 'dict':
                    for k, v in vo.keyed.items():
                        o.keyed[k] = v
                else:
                    o.weird = True
                return T.NONE
            if name in ('clear',):
                o.keyed = {}
                return T.NONE
        if self.passes_stream(args, kw):
            return self.opaque('method %s' % name, n)
        return unk('method %s' % name)

    def value_method(self, base, name, args, kw, n):
        if name in ('items', 'keys', 'values') and base[0] in ('attr', 'elem', 'idx', 'val', 'param'):
            return (name, base)
        if name in ('encode', 'decode'):
            enc = args[0] if args else kw.get('encoding', C('utf-8'))
            if is_c(enc) and isinstance(cv(enc), str):
                enc = C(cv(enc).lower().replace('_', '-').replace('utf8', 'utf-8'))
            if is_c(base) and is_c(enc):
                try:
                    return C(cv(base).encode(cv(enc)) if name == 'encode' else cv(base).decode(cv(enc)))
                except Exception:
                    return unk(name)
            return ('call', name, base, enc)
        if name in ('copy',) and not args:
            return ('call', 'copy', base)
        if is_c(base):
            try:
                if all(is_c(a) for a in args) and not kw and name in (
                        'upper', 'lower', 'strip', 'replace', 'split', 'startswith', 'endswith', 'format', 'join',
                        'rstrip', 'lstrip', 'zfill', 'index', 'find', 'count', 'bit_length', 'title'):
                    return self.lift(getattr(cv(base), name)(*[cv(a) for a in args]))
            except Exception:
                return unk(name)
            if name == 'get' and isinstance(cv(base), dict):
                return unk('get')
        if name == 'get' and args and base[0] in ('attr', 'elem', 'idx', 'val', 'param'):
            return ('idx', base, args[0]) if len(args) == 1 else ('call', 'get', base) + tuple(args)
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem') \
                and base[0] in ('attr', 'elem', 'idx', 'val', 'param', 'self'):
            self.event('mutate-path', T.show(base), name)
            if self.mode == 'w':
                self.event('set-on-write', T.show(base) + '.' + name)
            return unk(name)
        if self.passes_stream(args, kw):
            # an object method given the stream: obj.write(f) etc
            return self.opaque('method .%s of %s' % (name, T.show(base)), n)
        if any(a[0] == 'unk' for a in args) or base[0] == 'unk':
            return unk('.' + name)
        return ('call', '.' + name, base) + tuple(args) + tuple(v for _, v in sorted(kw.items()))

    # -- wire --------------------------------------------------------------------
    def ctx_call(self, name, args, kw, n):
        if not self.prims and (self.inline_only is None or name in self.inline_only):
            m = self.ctxclass.find_method(name) if self.ctxclass else None
            if isinstance(m, Func):
                return self.call_func(m, None if m.kind == 'static' else ('ctx', 'self'), args, kw, n)
        if name == 'iter_ext':
            return ('iterext', args[0] if args else None)
        if name == 'read_assert_tag':
            p = self.prim_on(args[0] if args else None, 'u8', n)
            if p is None:
                return unk('read_assert_tag')
            v = args[1] if len(args) > 1 else next(iter(kw.values()), unk('tag'))
            p.const = v if is_c(v) else None
            if not is_c(v):
                self.opaque('read_assert_tag of a non-constant', n)
            return T.NONE
        for pre in ('read_', 'write_'):
            if name.startswith(pre):
                suf = name[len(pre):]
                kind = SUFFIX_KIND.get(suf)
                endian = None
                if kind is None and suf in BASE_ENDIAN:
                    kind, endian = BASE_ENDIAN[suf]
                if kind is None:
                    break
                a = list(args)
                if kind == 'ref':
                    # (root, f[, value])
                    if 'root' in kw:
                        kw.pop('root')
                    elif a:
                        a = a[1:]
                if 'f' in kw:
                    a = [kw['f']] + a
                stream = a[0] if a else None
                if pre == 'read_':
                    enc = None
                    if kind == 'string':
                        enc = a[1] if len(a) > 1 else kw.get('encoding', C('macroman'))
                        kind = self.str_kind(enc)
                    p = self.prim_on(stream, kind, n)
                    if p is None:
                        return unk(name)
                    p.endian = endian
                    return ('wire', p.id)
                v = a[1] if len(a) > 1 else next((x for k, x in kw.items() if k in ('value', 's', 'm', 'v')), unk('value'))
                if kind == 'string':
                    enc = a[2] if len(a) > 2 else kw.get('encoding', C('macroman'))
                    kind = self.str_kind(enc)
                if kind == 'bool' and v[0] == 'obj':
                    v = T.TRUE
                p = self.prim_on(stream, kind, n)
                if p is None:
                    return T.NONE
                p.val = v
                p.endian = endian
                return T.NONE
        m = self.ctxclass.find_method(name) if self.ctxclass else None
        if isinstance(m, Func):
            return self.call_func(m, None if m.kind == 'static' else ('ctx', 'self2'), args, kw, n)
        if self.passes_stream(args, kw):
            return self.opaque('unknown context method %s' % name, n)
        return unk(name)

    def ctxself_call(self, base, name, args, kw, n):
        return self.ctx_call(name, args, kw, n)

    def str_kind(self, enc):
        if is_c(enc) and isinstance(cv(enc), str):
            e = cv(enc).lower().replace('_', '-')
            if e in ('utf8',):
                e = 'utf-8'
            if e in ('mac-roman', 'macintosh', 'macroman'):
                e = 'macroman'
            return 'string:' + e
        return 'string:?'

    def prim_on(self, stream, kind, n):
        if stream is None:
            self.opaque('stream argument missing', n)
            return None
        if stream[0] == 'stream':
            self.cur = n
            return self.prim(kind)
        o = self.ho(stream)
        if o is not None and o.kind == 'buffer':
            saved = self.out
            self.out = o.items
            self.cur = n
            p = self.prim(kind)
            self.out = saved
            o.loops = o.loops
            return p
        self.opaque('stream is not recognised', n)
        return None

    def stream_call(self, base, name, args, kw, n):
        o = self.ho(base)
        out = self.out
        if o is not None:
            if name == 'getvalue':
                return ('bufval', base[1])
            if name in ('seek', 'tell', 'close', 'flush'):
                o.weird = name == 'seek' or o.weird
                return unk(name)
        if name == 'read':
            if self.mode == 'w':
                return self.opaque('read from the output stream', n)
            if not args:
                p = self._prim_at(o, 'raw', n)
                p.size = ('rest',)
                return ('wire', p.id)
            p = self._prim_at(o, 'raw', n)
            p.size = args[0]
            return ('wire', p.id)
        if name == 'write':
            v = args[0] if args else unk('write')
            self.write_raw(o, v, n)
            return T.NONE
        if name in ('tell',):
            self.tells.append((self.out, len(self.out)))
            return ('call', 'tell', C(len(self.tells) - 1))
        if name in ('seek', 'truncate'):
            self.opaque('seek', n)
            return T.NONE
        if name in ('flush', 'close'):
            return T.NONE
        return self.opaque('stream.%s' % name, n)

    def _prim_at(self, o, kind, n):
        self.cur = n
        if o is not None:
            saved = self.out
            self.out = o.items
            p = self.prim(kind)
            self.out = saved
            return p
        return self.prim(kind)

    def write_raw(self, o, v, n):
        if v[0] == 'cat':
            self.write_raw(o, v[1], n)
            self.write_raw(o, v[2], n)
            return
        if v[0] == 'bufval':
            b = self.heap.get(v[1])
            if b is not None and not b.weird:
                if o is not None:
                    o.items.extend(b.items)
                else:
                    self.out.extend(b.items)
                return
        if v[0] == 'pack':
            for kind, endian, val in self.pack_items(v):
                p = self._prim_at(o, kind, n)
                p.val = val
                p.endian = endian
            return
        if v[0] == 'ite' and False:
            return
        p = self._prim_at(o, 'raw', n)
        p.val = v
        p.size = T.len_(v) if v[0] != 'unk' else unk('len')

    def pack_items(self, v):
        fmt = cv(v[1])
        if isinstance(fmt, bytes):
            fmt = fmt.decode('latin1')
        endian = {'<': 'le', '>': 'be', '!': 'be'}.get(fmt[0], 'native')
        out = []
        i = 0
        args = list(v[2:])
        s = fmt.lstrip('<>!=@')
        num = ''
        for ch in s:
            if ch.isdigit():
                num += ch
                continue
            k = int(num) if num else 1
            num = ''
            if ch in STRUCT_KIND:
                for _ in range(k):
                    if not args:
                        break
                    a = args.pop(0)
                    out.append((STRUCT_KIND[ch][0], endian if STRUCT_KIND[ch][1] > 1 else None, a))
            elif ch == 's':
                out.append(('raw', None, args.pop(0) if args else unk('pack')))
            elif ch == 'x':
                out.append(('raw', None, C(b'\0' * k)))
        return out

    def builtin(self, name, args, kw, n):
        a0 = args[0] if args else None
        if name == 'len' and a0 is not None:
            o = self.ho(a0)
            if o is not None:
                if o.sym is not None:
                    return ('len', o.sym)
                if o.kind == 'list' and o.elem is None and not o.weird:
                    return C(len(o.items))
                if o.kind == 'list' and o.meta.get('filled') is not None:
                    return o.meta['filled']
                if o.kind == 'list' and o.meta.get('counted') is not None and not o.weird:
                    return o.meta['counted']
                return ('len', a0)
            if a0[0] == 'bufval':
                b = self.heap.get(a0[1])
                sz = buf_size(b.items) if b is not None and not b.weird else None
                return sz if sz is not None else unk('buffer size')
            if a0[0] == 'unk':
                return unk('len')
            return T.len_(a0)
        if name == 'range':
            if len(args) == 1:
                return ('range', C(0), args[0], C(1))
            if len(args) == 2:
                return ('range', args[0], args[1], C(1))
            if len(args) == 3:
                return ('range',) + tuple(args)
        if name == 'enumerate' and a0 is not None:
            return ('enumerate', a0, args[1] if len(args) > 1 else kw.get('start', C(0)))
        if name == 'zip':
            return ('zip',) + tuple(args)
        if name == 'reversed' and a0 is not None:
            return ('reversed', a0)
        if name == 'sorted' and a0 is not None:
            if kw:
                return unk('sorted')
            return ('sorted', a0)
        if name == 'hasattr' and len(args) == 2 and is_c(args[1]):
            c = self.has(args[0], cv(args[1]))
            return c if is_c(c) else ('boolv', c)
        if name == 'getattr' and len(args) >= 2 and is_c(args[1]) and isinstance(cv(args[1]), str):
            nm = cv(args[1])
            if len(args) == 3:
                c = self.has(args[0], nm) if self._propish(args[0]) else None
                v = self.getattr(args[0], nm)
                if c is None:
                    return v
                return T.ite(c, v, args[2])
            return self.getattr(args[0], nm)
        if name == 'getattr' and args and args[0][0] == 'ctx':
            return self.opaque('computed context method', n)
        if name == 'setattr' and len(args) == 3:
            if is_c(args[1]):
                self.setattr(args[0], cv(args[1]), args[2])
            else:
                self.opaque('setattr with a computed name', n)
            return T.NONE
        if name == 'isinstance' and len(args) == 2:
            if is_c(a0) and args[1][0] == 'builtin':
                tn = args[1][1]
                m = {'int': int, 'str': str, 'bytes': bytes, 'float': float, 'bool': bool, 'bytearray': bytearray}
                if tn in m:
                    return C(isinstance(cv(a0), m[tn]))
            key = self.type_key(args[1])
            return ('boolv', ('isinst', a0, key))
        if name == 'bool' and a0 is not None:
            c = T.truth(a0)
            return c if is_c(c) else ('boolv', c)
        if name in ('bytearray', 'bytes') and a0 is None:
            return C(b'')
        if name in ('bytearray', 'bytes') and a0 is not None:
            if is_c(a0):
                try:
                    if isinstance(cv(a0), int):
                        if cv(a0) > 4096:
                            return unk(name)
                        return C(bytes(cv(a0)))
                    return C(bytes(cv(a0)))
                except Exception:
                    return unk(name)
            o = self.ho(a0)
            if o is not None and o.kind == 'list' and o.elem is None and not o.weird and all(is_c(x) for x in o.items):
                try:
                    return C(bytes([cv(x) for x in o.items]))
                except Exception:
                    return unk(name)
            if len(args) == 1:
                if a0[0] in ('call',) and a0[1] in ('bytearray', 'bytes', 'encode', 'bytes_le'):
                    return a0
                if a0[0] in ('bufval', 'cat', 'pack'):
                    return a0
                return ('call', name, a0)
            return unk(name)
        if name in ('list', 'tuple') and a0 is None:
            return self.new('list') if name == 'list' else C(())
        if name == 'dict' and a0 is None:
            t = self.new('dict')
            for k, v in kw.items():
                self.heap[t[1]].keyed[C(k)] = v
            return t
        if name in ('list', 'tuple') and a0 is not None:
            k = self.iter_kind(a0)
            if k[0] == 'items':
                if name == 'tuple' and all(is_c(x) for x in k[1]):
                    return C(tuple(cv(x) for x in k[1]))
                if name == 'tuple':
                    return ('tup',) + tuple(k[1])
                t = self.new('list')
                self.heap[t[1]].items = list(k[1])
                return t
            if a0[0] in ('zip', 'enumerate', 'range', 'reversed', 'sorted', 'items', 'keys', 'values'):
                return a0
            return ('call', name, a0)
        if name == 'iter' and a0 is not None:
            return a0
        if name in ('int', 'float', 'str', 'abs', 'round', 'ord', 'chr', 'min', 'max', 'sum', 'hash', 'repr', 'pow', 'divmod', 'any', 'all', 'unicode'):
            if name == 'str' and not args:
                return C('')
            if args and all(is_c(a) for a in args) and not kw:
                try:
                    fn = {'int': int, 'float': float, 'str': str, 'abs': abs, 'round': round, 'ord': ord, 'chr': chr,
                          'min': min, 'max': max, 'pow': pow, 'unicode': str}[name]
                    if name == 'pow' and abs(cv(args[1])) > 256:
                        return unk('pow')
                    return self.lift(fn(*[cv(a) for a in args]))
                except Exception:
                    return unk(name)
            if name == 'int' and len(args) == 1 and a0[0] in ('sum', 'len', 'wire'):
                return a0 if a0[0] != 'wire' else ('call', 'int', a0)
            if any(a[0] == 'unk' for a in args):
                return unk(name)
            if name == 'pow' and len(args) == 2:
                return ('op', '**', args[0], args[1])
            return ('call', name) + tuple(args)
        if name == 'print' or name == 'id':
            return T.NONE if name == 'print' else unk('id')
        if name == 'type' and len(args) == 1:
            o = self.ho(a0)
            if o is not None and isinstance(o.cls, Class):
                return ('cls', o.cls)
            return unk('type')
        if name == 'memoryview' and args:
            return a0
        if name == 'object':
            return unk('object')
        if name == 'locals':
            return unk('locals')
        if name in ('map',):
            k = self.iter_kind(args[1]) if len(args) == 2 else ('?',)
            if k[0] == 'items':
                t = self.new('list')
                self.heap[t[1]].items = [self.call(args[0], [x], {}, n) for x in k[1]]
                return t
            if self.passes_stream([args[0]], {}) or (args and args[0][0] in ('fn', 'bm')):
                return self.opaque('map', n)
            return unk('map')
        if self.passes_stream(args, kw):
            return self.opaque('call of %s' % name, n)
        if any(a[0] == 'unk' for a in args):
            return unk(name)
        return ('call', name) + tuple(args)

    def type_key(self, t):
        if t[0] == 'cls':
            return C(t[1].name)
        if t[0] == 'builtin':
            return C(t[1])
        if t[0] == 'tup':
            return ('tup',) + tuple(self.type_key(x) for x in t[1:])
        return C(T.show(t))

    def _propish(self, t):
        o = self.ho(t)
        if o is not None:
            return o.kind == 'inst' and isinstance(o.cls, Class)
        return t[0] in ('attr', 'elem', 'idx', 'val', 'param')

    def external(self, name, args, kw, n):
        last = name.split('.')[-1]
        a0 = args[0] if args else None
        if name in ('struct.pack', 'pack') or (last == 'pack' and name.startswith('struct')):
            if a0 is not None and is_c(a0):
                return ('pack',) + tuple(args)
            return unk('pack')
        if last in ('unpack',) and name.startswith('struct'):
            if a0 is not None and is_c(a0) and len(args) > 1:
                return ('unpack', a0, args[1])
            return unk('unpack')
        if last == 'calcsize' and a0 is not None and is_c(a0):
            import struct as _s
            try:
                f = cv(a0)
                return C(_s.calcsize(f))
            except Exception:
                return unk('calcsize')
        if last == 'BytesIO':
            t = self.new('buffer')
            if args:
                self.heap[t[1]].meta['init'] = args[0]
                self.heap[t[1]].weird = True
                self.opaque_if_wire(args[0], n)
            return t
        if last == 'UUID':
            if 'bytes_le' in kw:
                return ('call', 'UUID_le', kw['bytes_le'])
            if 'bytes' in kw:
                return ('call', 'UUID_be', kw['bytes'])
            return ('call', 'UUID') + tuple(args)
        if last == 'fromtimestamp':
            return ('call', 'fromtimestamp') + tuple(args)
        if last in ('from_bytes',) and args:
            return ('call', 'from_bytes') + tuple(args)
        if last in ('deepcopy', 'copy') and args:
            return ('call', 'copy', args[0])
        if last == 'OrderedDict' and not args:
            return self.new('dict')
        if name.startswith('str.') or name.startswith('bytes.'):
            if args:
                return self.value_method(args[0], last, args[1:], kw, n)
        if name.startswith('object.') and last == '__setattr__' and len(args) == 3 and is_c(args[1]):
            o = self.ho(args[0])
            if o is not None:
                o.fields[cv(args[1])] = args[2]
            return T.NONE
        if name.startswith('object.') and last == '__new__' and args and args[0][0] == 'cls':
            return self.new_inst(args[0][1], kw)
        if name.startswith('list.') or name.startswith('dict.') or name.startswith('OrderedDict.'):
            if args:
                return self.builtin_method(args[0], last, args[1:], kw, n)
        if self.passes_stream(args, kw):
            return self.opaque('call of %s' % name, n)
        if any(a[0] == 'unk' for a in args):
            return unk(name)
        return ('call', name) + tuple(args) + tuple(v for _, v in sorted(kw.items()))

    def opaque_if_wire(self, t, n):
        if T.wires(t):
            self.opaque('nested stream over data read', n)


STREAM = ('stream', 0)


def extract(prog, cls, mode, types=None):
    """Effect tree of cls.read / cls.write for the concrete class."""
    pe = PE(prog, mode, cls, types=types)
    st = pe.make_self(cls)
    m = cls.find_method('read' if mode == 'r' else 'write')
    if not isinstance(m, Func):
        return None
    pe.root_self = st
    pe.run(m, st, [STREAM])
    pe.self_id = st[1]
    return pe
