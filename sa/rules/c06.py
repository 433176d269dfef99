"""C06: the compiled reader reads what the Python reader reads."""
import ast
import multiprocessing

from ..flow import Flow
from ..load import Class
from ..loading import strip
from ..native import compare, values
from ..native.session import Session
from ..pe import extract
from . import c15

PARTS = ('bytes', 'values', 'accepts', 'refuses', 'blocks')
STATE = {}


def check(prog, rep, tier):
    rep.rule("For every kind in READERS both readers are taken apart from their source: the Python reader into the fields it takes and the values it stores, the compiled one (C++ from clang's tree, Cython from its parse tree) "
             "into the bytes it takes, its conditions, and what it puts into property_data. The two are walked together: every field must be met by the same bytes, every branch and loop by one that is taken in the same cases, "
             "every optional block by the same fields, and what one refuses the other must refuse. Then for every path below property_data the stores of both sides are compared under all values of the fields their conditions mention, "
             "and the values as functions of the bytes they are made of. READERS may only be put to use after the byte order was found to be little endian.")
    rep.assume("clang's syntax tree and Cython's parse tree say what the compilers compile; no object is larger than 2 GiB; conditions are compared on the critical values of the fields they mention (constants, masks, limits and their neighbours).")
    order(prog, rep)
    s = Session(prog.repo)
    if s.error:
        rep.unclear('READERS', s.error)
        return
    regs = {}
    for c, cid, kind in prog.registered():
        if kind == 'class':
            regs[cid.decode('latin-1') if isinstance(cid, bytes) else cid] = c
    STATE.update(prog=prog, regs=regs, kinds=s.kinds)
    # the longest first
    todo = sorted(range(len(s.kinds)), key=lambda i: (s.kinds[i].label not in ('CMPO', 'CDCI', 'DIDD', 'SLCT', 'TKFX', 'SCLP'), i))
    try:
        with multiprocessing.get_context('fork').Pool(min(8, len(todo) or 1)) as pool:
            results = dict(pool.imap_unordered(work, todo))
    except OSError:
        results = dict(work(i) for i in todo)
    for i, q in enumerate(s.kinds):
        rep.count('compiled readers')
        found, und, n = results[i]
        for rule, key, where, text in q.mfindings + (q.entry.findings if q.entry is not None else []):
            if rule in ('narrow', 'refuses'):
                rep.finding('%s/%s/%s' % (rule, q.label, key), 'the compiled reader of %s: %s' % (q.label, text), where)
        for rule, key, text, where in found:
            rep.finding('%s/%s/%s' % (rule, q.label, key), 'reading %s: %s' % (q.label, text), where)
        for u in und:
            rep.unclear(q.label, u)
        if not und:
            rep.count('readers compared')
        for k in n:
            rep.count(k, n[k])
        rep.sample('%s: %s' % (q.label, ', '.join('%d %s' % (n[k], k) for k in sorted(n)) or 'not compared'), 20)
    if not rep.undecided and not rep.findings:
        rep.need('readers compared', 8)
        rep.need('fields met', 150)
        rep.need('properties compared', 200)


def work(i):
    try:
        return i, compare_kind(STATE['prog'], STATE['kinds'][i], STATE['regs'])
    except Exception as x:
        return i, ([], ['%s: %s' % (type(x).__name__, str(x)[:120])], {})


def compare_kind(prog, q, regs):
    if q.error:
        return [], [q.error], {}
    cls = regs.get(q.label)
    if cls is None:
        return [], ['no class is registered for it'], {}
    if q.unclears:
        return [], [str(u) for u in q.unclears], {}
    pe = extract(prog, cls, 'r')
    w = compare.Walk(pe, q.entry, q.label)
    w.run()
    n = {'fields met': len(w.recs), 'branches, loops and refusals decided': w.decided}
    found = [(f.rule, f.key, f.text, f.where) for f in w.found]
    if found or w.undecided:
        return found, list(w.undecided), n
    v = values.Values(w)
    v.run()
    n['properties compared'] = v.compared
    n['values compared'] = v.leaves
    return [(f.rule, f.key, f.text, f.where) for f in v.found], list(v.undecided), n


# ---- READERS are for little endian data
def order(prog, rep):
    fc = prog.need_class('AVBFile')
    f = fc.find_method('read_header')
    if f is None:
        rep.unclear('READERS', 'read_header not found')
        return
    name = None
    for n in ast.walk(f.module.tree):
        if isinstance(n, ast.ImportFrom) and n.module and n.module.split('.')[-1] == '_ext':
            for a in n.names:
                if a.name == 'READERS':
                    name = a.asname or a.name
    if name is None:
        rep.unclear('READERS', 'how they are imported is not understood')
        return
    uses = [n for n in ast.walk(f.module.tree) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
    seen = set()

    def readers(d):
        return isinstance(d, tuple) and (d[:2] == ('glob', name) or d[:1] == ('ext',) and str(d[1]).endswith('_ext.READERS') or any(readers(x) for x in d if isinstance(x, tuple)))

    def const(d):
        d = strip(d)
        return d[1] if d[0] == 'const' else None

    # state: (byte order chosen, the readers put to use)
    def step(st, ev):
        chosen, ext = st
        if ev.kind == 'call' and ev.target[0] == 'class' and ev.target[1] == 'AVBIOContext' and ev.args:
            v = const(ev.args[0])
            return [(v if v in ('little', 'big') else '?', ext)]
        if ev.kind == 'store' and ev.value is not None and ev.target[0] == 'attr':
            if readers(ev.value):
                seen.add(getattr(ev.node, 'lineno', 0))
                return [(chosen, ev.target[2])]
            if ext == ev.target[2]:
                return [(chosen, None)]
        return None
    o = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and (ev.callee is not None and ev.callee.name in ('read_object',) or ev.target[0] == 'class')).run(f, {(None, None)}, cls=fc)
    for chosen, ext in o.n | o.ret:
        if ext is None:
            continue
        rep.count('byte orders of compiled reading')
        if chosen == 'big':
            rep.finding('order', 'the compiled readers are also used for big endian files, which they read as little endian', f.where)
        elif chosen != 'little':
            rep.unclear('read_header', 'the byte order the compiled readers are used for is not visible')
    if len(uses) != 1 or not seen:
        rep.unclear('READERS', 'how they are used is not understood')
