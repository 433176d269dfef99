"""C14: each reachable object stored once, before its referrers, under consistent numbers."""
import ast
from ..load import Func
from ..flow import Flow, show, is_generator
from ..loading import strip, contains
from ..saving import report, WALK


def check(prog, rep, tier):
    rep.rule("On every path of the save loop a record is written only for an object just found not to have been written, its number is the counter after exactly one advance and is remembered under the id of the object, "
             "mapping and counter start from nothing in each save, and the stored object count and top number (at the place the header reserves) are the final counter. "
             "The walk yields an object after everything it refers to and each element it recurses into. A reference is written as the remembered number of the object it refers to, null as 0, and an object without number is refused.")
    rep.assume("The walk reaches every written reference (C27) and the references of an object form no cycle.")
    for s in report(prog, rep, 'C14'):
        for st in s.out.n | s.out.ret:
            rep.count('save exits checked')
            if st.count is None:
                rep.finding('save/count-missing', 'a save can finish without storing the number of objects at the place the header reserves for it', s.func.where)
            elif st.count == '?':
                rep.unclear(s.func.qual, 'object count written is not understood')
            elif st.count != 2:
                rep.finding('save/count-missing', 'a save stores %d of the two numbers (object count, top object) at the place the header reserves' % st.count, s.func.where)
    if not rep.undecided:
        rep.need('record writes checked', 1)
    walk(prog, rep)
    refs(prog, rep)
    rep.need('walk yields checked', 1)
    rep.need('reference paths checked', 2)


def walk(prog, rep):
    f = None
    for m in prog.all_modules():
        g = prog.resolve_name(m, WALK)
        if isinstance(g, Func):
            f = g
            break
    if f is None:
        rep.unclear(WALK, 'not found')
        return
    p = f.node.args.args[0].arg

    # state: has the object itself been yielded; children already walked
    def is_rec(d):
        return d[0] == 'call' and d[1][0] in ('func', 'nested') and d[1][2].node is f.node

    def step(st, ev):
        if ev.kind in ('iter',) and contains(ev.target, is_rec):
            if st >= 1:
                rep.finding('walk/pre-order', 'the walk delivers an object before what it refers to, so its references cannot be numbered yet', ev.where)
        if ev.kind == 'yield':
            v = strip(ev.target)
            if v == ('param', p):
                rep.count('walk yields checked')
                if st >= 1:
                    return [2]
                return [st + 1]
        return None
    r = Flow(prog, step).run(f, {0})
    if not rep.counts.get('walk yields checked'):
        rep.unclear(f.qual, 'the walk does not yield the object it is called with')
    # reversed delivery: the caller must not turn the order around
    for g in prog.functions():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('reversed', 'sorted', 'set', 'frozenset'):
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == WALK for x in ast.walk(n)) and g.name == 'write':
                    rep.finding('save/reordered', '%s() changes the order in which the walk delivers the objects' % n.func.id, '%s:%d' % (g.module.rel, n.lineno))


def refs(prog, rep):
    """write_object_ref: what number is written for which value"""
    c = prog.need_class('AVBIOContext')
    f = c.find_method('write_object_ref')
    if not isinstance(f, Func):
        rep.unclear('AVBIOContext', 'no write_object_ref')
        return
    names = [a.arg for a in f.node.args.args]
    if len(names) < 4:
        rep.unclear(f.qual, 'unexpected parameters')
        return
    value, root = ('param', names[3]), ('param', names[1])

    # state: (isnone, debug, inmap, locals)
    def isval(d):
        return strip(d) == value

    def look(d, lc):
        d = strip(d)
        k = 0
        while d[0] == 'local' and d[1] in lc and k < 10:
            d = strip(lc[d[1]])
            k += 1
        return d

    def step(st, ev):
        none, debug, inmap, lc_ = st
        lc = dict(lc_)
        t = ev.target
        if ev.kind == 'store' and t[0] == 'local':
            lc[t[1]] = ev.value
            return [(none, debug, inmap, tuple(sorted(lc.items())))]
        if ev.kind == 'test':
            s = look(t, lc)
            if s[0] == 'cmp' and isval(s[2]) and s[3] == ('const', None):
                n = (s[1] in ('Is', 'Eq')) == ev.truth
                if none is not None and none != n:
                    return []
                return [(n, debug, inmap, lc_)]
            if isval(s):
                # truth of an object: lists and mappings may be empty
                return [((not ev.truth) if ev.truth else 'falsy', debug, inmap, lc_)]
            if s[0] == 'attr' and s[2] == 'debug_copy_refs':
                return [(none, ev.truth, inmap, lc_)]
            if s[0] == 'cmp' and s[1] in ('In', 'NotIn') and s[3][0] == 'attr' and s[3][2] == 'ref_mapping':
                return [(none, debug, (s[1] == 'In') == ev.truth, lc_)]
            return None
        if ev.kind == 'call' and t[0] == 'attr' and t[2].startswith('write_u') and len(ev.args) == 2:
            rep.count('reference paths checked')
            v = look(ev.args[1], lc)
            if debug:
                return None
            if none is True:
                if v != ('const', 0):
                    if v[0] in ('const', 'attr', 'idx'):
                        rep.finding('ref/null', 'a missing reference is written as %s instead of 0' % show(v), ev.where)
                    else:
                        rep.unclear(f.qual, 'number written for a missing reference not understood')
                return None
            if none == 'falsy':
                if v == ('const', 0):
                    rep.finding('ref/empty-as-null', 'a reference to an empty list or mapping object is written as null', ev.where)
                    return None
            if v[0] == 'idx' and v[1][0] == 'attr' and v[1][2] == 'ref_mapping':
                k = strip(v[2])
                if k == ('attr', value, 'instance_id'):
                    if v[1][1] != root and v[1][1] != ('attr', value, 'root'):
                        rep.unclear(f.qual, 'mapping of %s' % show(v[1][1]))
                    return None
                rep.finding('ref/key', 'the number of a reference is looked up under %s instead of the id of the object' % show(k), ev.where)
                return None
            if v[0] == 'attr' and v[1] == value and v[2] in ('instance_id', 'index'):
                rep.finding('ref/old-number', 'a reference is written as the %s of the object instead of the number of the record written for it' % v[2], ev.where)
                return None
            if v[0] == 'call' and v[1][0] == 'attr' and v[1][2] == 'get' and v[1][1][0] == 'attr' and v[1][1][2] == 'ref_mapping':
                if len(v[2]) == 2 and inmap is not True:
                    rep.finding('ref/default', 'a reference to an object that was not written is stored as %s instead of being refused' % show(v[2][1]), ev.where)
                return None
            if v[0] == 'const':
                rep.finding('ref/const', 'a reference to an object is written as %s' % show(v), ev.where)
                return None
            rep.unclear(f.qual, 'number written for a reference not understood: %s' % show(v))
        return None
    o = Flow(prog, step, opaque=lambda ev: ev.kind == 'call' and ev.target[0] == 'attr' and ev.target[2].startswith('write_u')).run(f, {(None, None, None, ())}, cls=c)
