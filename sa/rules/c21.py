"""C21: a failed open or save leaves files and handles as they should be."""
import ast
from ..load import Func
from ..flow import Flow, show
from ..loading import strip, contains
from ..saving import report
from ..pe import P, Loop
from ..terms import is_c, cv
from .. import terms as T
from ..shapes import Inst, K, Unknown, FuncV, Ext, Builtin
from .shapeutil import interp
from . import c15


def check(prog, rep, tier):
    rep.rule("Saving: the path to be replaced is opened for writing only after the header, the whole tree and every record have been produced, and state that a save leaves behind cannot make the next save differ. "
             "Opening: on every exceptional exit of the constructor a handle it opened has been closed (a handle given by the caller is left alone), on the normal exit it is still open; every constant text of the header a save writes is insisted on by opening; a path is opened for reading bytes only and a given file object is read from as it is; close() and leaving a with block close it on every path.")
    rep.assume("Any call may raise. A failure while the finished bytes are written to the disk is out of reach.")
    for s in report(prog, rep, 'C21'):
        for st in s.out.n | s.out.ret:
            rep.count('save exits checked')
        for st in s.out.exc:
            rep.count('failing save paths')
    opening(prog, rep)
    for order in ('little', 'big'):
        recognising(prog, rep, order)
    closing(prog, rep)
    given(prog, rep)
    if not rep.undecided:
        rep.need('record writes checked', 1)
    rep.need('failing open paths', 1)
    rep.need('header texts checked', 4)
    rep.need('close paths', 1)


def is_open(d):
    d = strip(d)
    return d[0] == 'call' and str(show(d[1])).split('.')[-1] == 'open'


def opening(prog, rep):
    fc = prog.need_class('AVBFile')
    f = fc.find_method('__init__')
    if not isinstance(f, Func):
        rep.unclear('AVBFile', 'no constructor')
        return
    param = ('param', [a.arg for a in f.node.args.args][1])

    def handle(d):
        return d == ('attr', ('self',), 'f') or is_open(d) or (d[0] == 'local' and len(d) == 2 and d[1] in handles)
    handles = set()

    # state: (handle: None|'own'|'ext'|'closed'|'extclosed', local constants)
    def closes(ev):
        t = ev.target
        return ev.kind == 'call' and t[0] == 'attr' and t[2] == 'close' and (handle(t[1]) or t[1] == param or strip(t[1]) == param)

    def step(st, ev):
        h, lc_ = st
        t = ev.target
        if ev.kind == 'store':
            v = ev.value
            if t == ('attr', ('self',), 'f'):
                if is_open(v):
                    return [('own', lc_)]
                if strip(v) == param:
                    return [('ext', lc_)]
                if v == ('const', None):
                    return [(None, lc_)]
                if v[0] == 'local' and v[1] in handles:
                    return None
                return None
            if t[0] == 'local':
                lc = dict(lc_)
                if v[0] == 'const':
                    lc[t[1]] = v[1]
                else:
                    lc.pop(t[1], None)
                if is_open(v):
                    handles.add(t[1])
                    return [('own', tuple(sorted(lc.items(), key=str)))]
                return [(h, tuple(sorted(lc.items(), key=str)))]
        if ev.kind == 'test':
            s = strip(t)
            if s[0] == 'local' and s[1] in dict(lc_):
                if bool(dict(lc_)[s[1]]) != ev.truth:
                    return []
            if s[0] == 'cmp' and s[1] in ('Is', 'IsNot', 'Eq', 'NotEq'):
                a, b = strip(s[2]), strip(s[3])
                for x, y in ((a, b), (b, a)):
                    if y == param and handle(x):
                        same = (s[1] in ('Is', 'Eq')) == ev.truth
                        if h in ('own', 'closed') and same or h in ('ext', 'extclosed') and not same:
                            return []
                    if y == ('const', None) and x == param:
                        isn = (s[1] in ('Is', 'Eq')) == ev.truth
                        if isn and h in ('own', 'ext'):
                            return []
            if handle(s) and h in ('own', 'ext') and not ev.truth:
                return []
            if s[0] == 'call' and str(show(s[1])).endswith('is_fileobject_like') and h in ('own', 'ext') and strip(s[2][0]) == param:
                if ev.truth != (h == 'ext'):
                    return []
            return None
        if closes(ev):
            if strip(t[1]) == param or h == 'ext':
                if h == 'ext':
                    return [('extclosed', lc_)]
                return [('closed' if h == 'own' else h, lc_)]
            return [('closed' if h == 'own' else h, lc_)]
        if ev.kind == 'exit' and is_open(t):
            return [('closed' if h == 'own' else h, lc_)]
        return None

    class F(Flow):
        def emit_exc(self, ev, st):
            if closes(ev):
                return self.emit(ev, st)
            return st
    o = F(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.callee is not None and ev.callee.name in ('is_fileobject_like', 'read_object', 'setup_empty')).run(f, {(None, ())}, cls=fc)
    for h, lc in o.exc:
        rep.count('failing open paths')
        if h == 'own':
            rep.finding('open/leak', 'opening a path can fail and leave the file open', f.where)
        elif h == 'extclosed':
            rep.finding('open/closes-callers', 'opening fails and closes the file object that the caller passed in', f.where)
    for h, lc in o.n | o.ret:
        rep.count('open exits')
        if h == 'closed':
            rep.finding('open/closed', 'opening closes the file it needs for loading objects on demand', f.where)


def recognising(prog, rep, order):
    """opening insists on the constant texts that tell a bin from other files"""
    fc = prog.need_class('AVBFile')
    try:
        w = c15.run(prog, fc, 'write_header', 'w', order)
        r = c15.run(prog, fc, 'read_header', 'r', order)
    except Exception as e:
        rep.unclear('AVBFile header (%s)' % order, '%s: %s' % (type(e).__name__, e))
        return
    if w is None or r is None:
        rep.unclear('AVBFile', 'header functions not found')
        return
    kept = {x[1] for v in r.obj.fields.values() for x in T.walk(v) if x[0] == 'wire'}
    R = c15.flat(r.out, Loop)
    ids = {a.id for a in R if isinstance(a, P)}
    for i, (a, b) in enumerate(zip(R, w.out)):
        if not isinstance(a, P) or not isinstance(b, P) or a.kind != b.kind and c15.width(a) != c15.width(b):
            return        # the layouts differ, which C15 decides
        if b.val is None or not is_c(b.val) or a.id in kept:
            continue
        v = cv(b.val)
        if not isinstance(v, (bytes, str)) or len(v) < 4 or not any(v if isinstance(v, bytes) else [1]):
            continue
        rep.count('header texts checked')
        insists = a.const is not None or a.allowed or any(x == ('wire', a.id) for c in r.asserts for x in T.walk(c))
        if not insists and any(x[0] == 'unk' for c in r.asserts if all(y in ids for y in T.wires(c)) for x in T.walk(c)):
            rep.unclear('AVBFile header (%s)' % order, 'a test of the header was not understood')
        elif not insists:
            rep.finding('open/unchecked/%r' % (v,), 'opening does not check for %r, so a file that is not a bin can be taken for one' % (v,), '%s:%s' % (a.file or fc.module.rel, a.line))


def closing(prog, rep):
    fc = prog.need_class('AVBFile')
    for name in ('close', '__exit__'):
        f = fc.find_method(name)
        if not isinstance(f, Func):
            rep.finding('close/none/%s' % name, 'AVBFile has no %s' % name, fc.where)
            continue

        def step(st, ev):
            t = ev.target
            if ev.kind == 'call' and t[0] == 'attr' and t[2] == 'close' and strip(t[1]) == ('attr', ('self',), 'f'):
                return ['closed']
            if ev.kind == 'test':
                s = strip(t)
                if s == ('attr', ('self',), 'f'):
                    return [st] if ev.truth else [('nofile' if st == 'open' else st)]
                if s[0] == 'cmp' and strip(s[2]) == ('attr', ('self',), 'f') and s[3] == ('const', None):
                    none = (s[1] in ('Is', 'Eq')) == ev.truth
                    return ['nofile' if none and st == 'open' else st]
                if s[0] == 'attr' and s[2] == 'closed' and ev.truth:
                    return ['closed']
                if s[0] == 'call' and s[1] == ('builtin', 'hasattr') and not ev.truth:
                    return ['nofile']
            return None
        o = Flow(prog, step).run(f, {'open'}, cls=fc)
        for st in o.n | o.ret:
            rep.count('close paths')
            if st == 'open':
                rep.finding('close/not-closed/%s' % name, '%s can return without closing the file' % f.qual, f.where)
    # the with statement must not swallow the error
    f = fc.find_method('__exit__')
    if isinstance(f, Func):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and n.value.value is True:
                rep.finding('close/swallows', '__exit__ swallows the error raised in the with block', '%s:%d' % (f.module.rel, n.lineno))


FILE_METHODS = ('read', 'readinto', 'readline', 'readlines', 'seek', 'tell', 'close', 'write', 'flush', 'seekable', 'readable', 'writable', 'closed', 'fileno',
                'isatty', 'truncate', 'readall', 'detach', 'peek', 'read1', 'name', 'mode', 'raw', '__enter__', '__exit__', '__iter__', '__next__')


def given(prog, rep):
    """a path is opened for reading, a file object is used as it is"""
    fc = prog.need_class('AVBFile')
    f = fc.find_method('__init__')
    s = interp(prog)
    for what in ('a path', 'a file object'):
        opened = []

        def hook(sh, g, args, kw):
            if isinstance(g, FuncV) and g.f.name == 'read_header':
                return K(None)
            if isinstance(g, (Ext, Builtin)) and g.name.split('.')[-1] == 'open':
                r = Inst(None)
                r.label = 'opened'
                mode = args[1] if len(args) > 1 else kw.get('mode', K('r'))
                opened.append((r, args[0] if args else kw.get('file'), mode))
                return r
            return None

        def act():
            del opened[:]
            a = K('some.avb') if what == 'a path' else Inst(None)
            if what != 'a path':
                for n in FILE_METHODS:
                    a.attrs[n] = Unknown(n)
            s.hook_call = hook
            try:
                return a, s.instantiate(fc, [a], {})
            finally:
                s.hook_call = None
        rs = list(s.runs(act, limit=8))
        for kind, v, ch in rs:
            rep.count('openings interpreted')
            if kind == 'stop' or s.unknowns or ch:
                rep.unclear('AVBFile', 'opening %s is not followed: %s' % (what, v))
                continue
            if kind == 'raise':
                rep.finding('open/given/%s' % what, 'opening %s raises %s before anything is read' % (what, v.name), f.where)
                continue
            a, o = v
            h = o.attrs.get('f')
            if what == 'a path':
                if not any(h is r for r, p, m in opened):
                    if isinstance(h, Inst) or h is a:
                        rep.finding('open/given/path', 'opening a path does not open the file: it reads from %r' % (h,), f.where)
                    else:
                        rep.unclear('AVBFile', 'what opening a path reads from is not visible')
                for r, p, m in opened:
                    if p is not a and not (isinstance(p, K) and p.v == a.v):
                        rep.unclear('AVBFile', 'what is opened is not visible')
                    if isinstance(m, K) and isinstance(m.v, str) and ('b' not in m.v or set(m.v) & set('wax+')):
                        rep.finding('open/mode', 'a bin is opened with mode %r, not for reading bytes' % m.v, f.where)
            else:
                for r, p, m in opened:
                    rep.finding('open/given/file object', 'a file object that is given is taken for a path', f.where)
                if not opened and h is not a:
                    if isinstance(h, Inst):
                        rep.finding('open/given/file object', 'a file object that is given is not what is read from', f.where)
                    else:
                        rep.unclear('AVBFile', 'what opening a file object reads from is not visible')
