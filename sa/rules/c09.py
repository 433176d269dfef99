"""C09: malformed records are refused and never half-loaded."""
import ast
from .common import *
from ..load import Func
from ..flow import Flow, show
from ..loading import loaders
from ..wire import Mismatch
from ..shapes import Inst, K, NONE, LambdaV, Env, Unknown
from .shapeutil import interp, empty_file


def check(prog, rep, tier):
    rep.rule("All normal and exceptional paths of the record loader are walked with a typestate: the bytes obtained must be compared with the record size before decoding, "
             "the portable decoder must be followed by a check that nothing is left over, an exception from a decoder must leave the loader, nothing is put in the cache before both, "
             "and a record of unknown kind raises. In the readers every constant the writer emits is insisted on, the tag assertion raises for any other value, and no handler swallows an error. "
             "The reader of references is interpreted for files of 0 to 3 records and every number around their count: a number that no record has is refused, one that a record has is not.")
    rep.assume("Every call can raise; assert statements are executed (python is not run with -O).")
    for L in loaders(prog):
        loader(L, rep)
    asserted(prog, rep)
    constants(prog, rep)
    swallow(prog, rep)
    dangling(prog, rep)
    rep.need('record loaders', 1)
    rep.need('decoder calls', 2)
    rep.need('readers searched for swallowed errors', 60)


def loader(L, rep):
    rep.count('record loaders')
    rep.count('decoder calls', L.counts['decoder calls'])
    rep.count('loader exits', len(L.out.n | L.out.ret | L.out.exc))
    for key, text, where in L.findings:
        if key in ('short-read', 'cached-early', 'cached-broken', 'cached-unchecked'):
            rep.finding('%s/%s' % (L.func.name, key), '%s: %s' % (L.func.qual, text), where)
    for reading, look, short, dec, left, cached, idset in L.out.n | L.out.ret:
        if dec == 'broken':
            rep.finding('%s/swallowed' % L.func.name, '%s: an exception raised while decoding is swallowed' % L.func.qual, L.func.where)
        elif dec == 'py' and left in (None, 'bad'):
            rep.finding('%s/leftover' % L.func.name, '%s: an object is returned without checking that its record was used up' % L.func.qual, L.func.where)
        elif dec == 'py' and left == 'unk':
            rep.unclear(L.func.qual, 'left-over check not understood')
        elif dec is None and look == 'miss':
            rep.finding('%s/unknown-kind' % L.func.name, '%s: returns normally for a record it has not decoded (unknown kind)' % L.func.qual, L.func.where)
    for reading, look, short, dec, left, cached, idset in L.out.exc:
        if cached and dec in ('broken', None):
            rep.finding('%s/kept-on-error' % L.func.name, '%s: a failed load leaves the object in the cache' % L.func.qual, L.func.where)
        if cached and dec == 'py' and left != 'ok' and left != 'unk':
            rep.finding('%s/kept-on-error' % L.func.name, '%s: a failed load leaves the object in the cache' % L.func.qual, L.func.where)


def asserted(prog, rep):
    """read_assert_tag raises unless the value read is the one asked for"""
    ctx = prog.need_class('AVBIOContext')
    f = ctx.find_method('read_assert_tag')
    if not isinstance(f, Func):
        rep.unclear('AVBIOContext', 'no tag assertion found')
        return
    names = [a.arg for a in f.node.args.args]
    want = ('param', names[-1])

    def is_read(d):
        from ..loading import strip
        d = strip(d)
        return d[0] == 'call' and d[1][0] == 'attr' and d[1][2].startswith('read')

    def step(st, ev):
        if ev.kind == 'test':
            d = ev.target
            if d[0] == 'cmp' and ((is_read(d[2]) and d[3] == want) or (is_read(d[3]) and d[2] == want)):
                if d[1] in ('Eq', 'NotEq'):
                    return ['same' if (d[1] == 'Eq') == ev.truth else 'differs']
                return ['order' if d[1] in ('Lt', 'LtE', 'Gt', 'GtE') else 'odd']
        return None
    fl = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2].startswith('read_'))
    o = fl.run(f, {'unchecked'}, cls=ctx)
    ends = o.n | o.ret
    rep.count('tag assertion exits', len(ends))
    if 'differs' in ends or 'order' in ends:
        rep.finding('read_assert_tag', 'the tag assertion returns normally for a wrong tag', f.where)
    elif 'odd' in ends:
        rep.unclear('read_assert_tag', 'how the tag is compared is not visible')
    elif 'unchecked' in ends:
        if any(isinstance(n, (ast.Compare, ast.Call)) and mentions(n, names[-1]) for n in ast.walk(f.node)):
            rep.unclear('read_assert_tag', 'how the tag is compared is not visible')
        else:
            rep.finding('read_assert_tag', 'the tag assertion does not compare the tag', f.where)


def mentions(n, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n))


def constants(prog, rep):
    for u in units(prog, rep):
        if u.al is None:
            continue
        for r, w in u.al.skipped:
            v = getattr(w, 'val', None)
            rep.count('discarded fields examined')
            if v is None or not is_c(v):
                continue
            c = cv(v)
            if c in (0, None, False) or (isinstance(c, (bytes, str)) and not c.strip(b'\0' if isinstance(c, bytes) else '\0')):
                continue               # padding
            rep.finding('%s/unchecked-constant/%s' % (u.name, T.show(v)),
                        '%s: the reader takes a field that is always %s without checking it' % (u.name, T.show(v)), loc(r))


def swallow(prog, rep):
    """no except clause of a reader ends normally"""
    base = prog.need_class('AVBObject')
    for f in prog.functions():
        if not (f.name.startswith('read') or f.name in ('iter_ext', '__setattr__')):
            continue
        if f.cls is None and not f.name.startswith('read'):
            continue
        rep.count('readers searched for swallowed errors')
        for n in ast.walk(f.node):
            if isinstance(n, ast.Try):
                if not decodes(n.body):
                    continue
                for h in n.handlers:
                    if broad(h) and falls_through(h.body):
                        rep.finding('%s/handler' % f.qual, '%s: an error raised while reading is caught and not raised again' % f.qual, '%s:%d' % (f.module.rel, h.lineno))
            elif isinstance(n, ast.With):
                for it in n.items:
                    d = dotted_call(it.context_expr)
                    if d and d.split('.')[-1] == 'suppress':
                        rep.finding('%s/handler' % f.qual, '%s: errors raised while reading are suppressed' % f.qual, '%s:%d' % (f.module.rel, n.lineno))


def broad(h):
    from ..flow import handler_names
    names = handler_names(h)
    return not names or any(x in ('Exception', 'BaseException', 'AssertionError', 'error', 'EOFError', 'ValueError') for x in names)


def decodes(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                d = (dotted_call(n) or '').split('.')[-1]
                if d.startswith('read') or d.startswith('unpack') or d in ('reader', 'iter_ext'):
                    return True
    return False


def dotted_call(n):
    from ..load import dotted
    return dotted(n)


def falls_through(body):
    """may control leave this statement list other than by raising"""
    for s in body:
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.If):
            if not falls_through(s.body) and s.orelse and not falls_through(s.orelse):
                return False
            if not s.orelse and any(isinstance(x, ast.Return) for x in ast.walk(s)):
                return True
    return True


def dangling(prog, rep):
    """a stored reference to a record that the file does not have is refused"""
    c = prog.find_class('AVBIOContext')
    f = c.find_method('read_object_ref') if c is not None else None
    if not isinstance(f, Func):
        return rep.unclear('read_object_ref', 'not found')
    s = interp(prog)
    root = empty_file(prog, s, rep)
    if root is None:
        return
    for n in range(4):
        for i in range(n + 4):
            def act():
                l = Inst(None, 'list')
                l.lst = [K(0)] + [K(100 * k + 4) for k in range(n)]
                root.attrs['object_positions'] = l
                ctx = s.instantiate(c, [K('little')], {})
                ctx.attrs['read_u32'] = LambdaV(ast.parse('lambda f: %d' % i).body[0].value, {}, f.module)
                r = s.call(s.getattr(ctx, 'read_object_ref'), [root, NONE], {})
                return s.getattr(r, 'index') if isinstance(r, Inst) and r.cls is not None else r
            for kind, v, ch in s.runs(act, limit=8):
                rep.count('reference numbers interpreted')
                if kind == 'stop' or s.unknowns or isinstance(v, Unknown) or kind == 'raise' and v.name in ('AttributeError', 'KeyError', 'TypeError', 'NameError'):
                    rep.unclear('read_object_ref', 'not followed: %s' % (v,))
                    continue
                if kind == 'raise' and i <= n:
                    rep.finding('reference/refused', 'a reference to record %d of a file of %d records is refused (%s)' % (i, n, v.name), f.where)
                elif kind == 'ok' and i > n:
                    rep.finding('reference/dangling', 'a reference to record %d is accepted although the file has %d records' % (i, n), f.where)
                elif kind == 'ok' and not (isinstance(v, K) and (v.v == i or i == 0 and v.v is None)):
                    rep.finding('reference/number', 'the reference read for record %d has the number %r' % (i, v), f.where)
