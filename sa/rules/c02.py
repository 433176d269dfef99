"""C02: optional blocks survive a save: emitted exactly when their data is present,
complete; data that is absent never stops a save."""
from .common import *
from ..wire import self_paths, root_prop, atoms, facts_of
from .c01 import props


def check(prog, rep, tier):
    rep.rule("Every optional block a reader accepts is matched with the writer's blocks. Rules: a block whose contents the "
             "reader keeps is emitted by the writer; it is emitted under the presence of the properties it carries and not of "
             "others, nor of a value test that drops legitimate values; every property the writer takes without asking whether "
             "it is there is bound by the reader on every path.")
    rep.assume("Properties are set together when the reader binds them in the same block.")
    for u in units(prog, rep):
        if u.crash:
            rep.unclear(u.name, u.crash)
            continue
        if isinstance(u.error, Undecided):
            rep.unclear(u.name, u.error.reason)
            continue
        if isinstance(u.error, Mismatch):
            e = u.error
            if e.rule.startswith('ext') or getattr(e, 'ext', None) is not None or e.rule in ('conditional-write', 'condition'):
                rep.finding("%s/%s/%s" % (u.name, e.rule, e.msg), "%s: %s" % (u.name, e.msg), "read %s, write %s" % (loc(e.r), loc(e.w)))
            else:
                rep.unclear(u.name, "layout differs (decided by C01): %s" % e.msg)
            continue
        blocks(u, rep)
        definite(u, rep)
    rep.need('optional blocks accepted', 40)


def bound_by(u, case):
    """root property -> [(path, wire ids)] bound from the fields of a block"""
    ids = set()

    def w(l):
        for n in l:
            if isinstance(n, P):
                ids.add(n.id)
            elif isinstance(n, Loop):
                w(n.body)
            elif isinstance(n, Alt):
                w(n.a)
                w(n.b)
    w(case)
    out = {}
    for p, t in u.al.binds.items:
        if T.wires(t) & ids:
            out.setdefault(root_prop(p), []).append((p, t))
    return out


def conj_atoms(c):
    if c[0] == 'and':
        return conj_atoms(c[1]) + conj_atoms(c[2])
    if c[0] == 'ite' and c[3] == T.FALSE:
        return conj_atoms(c[1]) + conj_atoms(c[2])
    return [c]


def has_of(a):
    """property name whose presence the atom states"""
    if a[0] == 'has' and a[1] == ('self',):
        return a[2]
    return None


def blocks(u, rep):
    name = u.name
    conds = conditions(u)
    for e in u.al.accepted:
        emitted = getattr(e, 'emitted', {})
        for tag, case in e.cases.items():
            rep.count('optional blocks accepted')
            b = bound_by(u, case)
            b.pop(None, None)
            if tag not in emitted and b:
                rep.finding("%s/not-saved/%s" % (name, ",".join(sorted(b))),
                            "%s: optional block %d (%s) is read but never written" % (name, tag, ", ".join(sorted(b))), loc(e))
    for tag, guards, case, wn, node in u.al.groups:
        rep.count('optional blocks emitted')
        b = bound_by(u, case)
        b.pop(None, None)
        carried = set(b)
        for n in wn:
            if isinstance(n, P) and n.val is not None:
                carried |= {root_prop(p) for p in self_paths(n.val)}
            elif isinstance(n, Loop) and n.base is not None:
                carried |= {root_prop(p) for p in self_paths(n.base)}
        carried.discard(None)
        cond = {conds.get(x, T.TRUE) for x in carried}
        rep.sample("%s block %d under %s carries %s" % (name, tag, [T.show(g) for g in guards], sorted(carried)))
        for g in guards:
            for a in conj_atoms(g):
                h = has_of(a)
                if h is not None:
                    if h in carried or conds.get(h, T.TRUE) in cond and conds.get(h) is not None:
                        continue
                    if carried and h in props(u):
                        rep.finding("%s/guard/%s/%s" % (name, ",".join(sorted(carried)), h),
                                    "%s: optional block %d carries %s but is written when %s is present" % (name, tag, ", ".join(sorted(carried)), h),
                                    loc(node))
                    continue
                if a[0] == 'not' and has_of(a[1]) in carried:
                    rep.finding("%s/guard-inverted/%s" % (name, has_of(a[1])),
                                "%s: optional block %d is written when %s is absent" % (name, tag, has_of(a[1])), loc(node))
                    continue
                if T.has_unk(a) or not b:
                    continue
                ps = self_paths(a)
                roots = {root_prop(p) for p in ps}
                if a[0] in ('truthy', 'cmp') and roots and roots <= set(b):
                    value_guard(u, rep, tag, a, b, node)
                elif roots and not (roots & carried) and a[0] in ('truthy', 'cmp') and roots <= props(u):
                    rep.finding("%s/guard-value/%s/%s" % (name, ",".join(sorted(carried)), T.show(a)),
                                "%s: optional block %d (%s) is only written when %s" % (name, tag, ", ".join(sorted(carried)), T.show(a)), loc(node))


NUMERIC = ('u8', 's8', 'bool', 'u16', 's16', 'u32', 's32', 'u64', 's64', 'double', 'exp10')


def value_guard(u, rep, tag, a, b, node):
    """the block is dropped for some values of its own property"""
    if a[0] == 'truthy' and a[1][0] == 'attr' and a[1][1] == ('self',):
        for p, t in b[a[1][2]]:
            if p == a[1] and t[0] == 'wire' and u.r.nodes[t[1]].kind in NUMERIC:
                rep.finding("%s/guard-value/%s/%s" % (u.name, a[1][2], T.show(a)),
                            "%s: optional block %d is not written when %s is zero, so a zero that was read is lost" % (u.name, tag, a[1][2]),
                            loc(node))
                return
    if a[0] == 'truthy' and all(p[0] != 'attr' or p[1] != ('self',) or p[2] != root_prop(p) for p, t in b.get(root_prop(a[1]) or '', ())):
        return      # the block only holds something of each element: no element, no data
    if a[0] == 'cmp' and a[1] in ('is', 'is not') and is_c(a[3]) and cv(a[3]) is None:
        return
    if a[0] == 'cmp' and a[2][0] == 'attr' and a[2][1] == ('self',) and is_c(a[3]) and isinstance(cv(a[3]), (int, float)):
        for p, t in b[a[2][2]]:
            if p == a[2] and t[0] == 'wire' and u.r.nodes[t[1]].kind in NUMERIC:
                rep.finding("%s/guard-value/%s/%s" % (u.name, a[2][2], T.show(a)),
                            "%s: optional block %d is only written when %s" % (u.name, tag, T.show(a)), loc(node))
                return
    rep.unclear("%s block %d" % (u.name, tag), "written only when %s" % T.show(a))


def conditions(u):
    """self property -> condition under which the reader binds it (absent: never)"""
    o = u.r.heap[u.r.self_id]
    out = {}
    for k, v in o.fields.items():
        out[k] = presence(v)
    return out


def definite(u, rep):
    conds = conditions(u)
    pr = props(u)
    used = {}

    def term(t, facts, node):
        """properties taken by t while not known present"""
        if not isinstance(t, tuple) or not t or is_c(t) or t[0] in ('has', 'unk'):
            return
        if t[0] in ('ite',):
            term(t[1], facts, node)
            term(t[2], facts | pos(t[1]), node)
            term(t[3], facts | neg(t[1]), node)
            return
        if t[0] == 'and':
            term(t[1], facts, node)
            term(t[2], facts | pos(t[1]), node)
            return
        if t[0] == 'or':
            term(t[1], facts, node)
            term(t[2], facts | neg(t[1]), node)
            return
        if t[0] == 'attr' and t[1] == ('self',):
            if t[2] not in facts:
                used.setdefault(t[2], (node, facts))
            return
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    term(x, facts, node)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            term(y[0] if y and isinstance(y[0], tuple) else y, facts, node)

    def pos(c):
        s = set()
        for a in conj_atoms(c):
            h = has_of(a)
            if h:
                s.add(h)
            elif a[0] not in ('not', 'or', 'has'):
                for p in self_paths(a):
                    pass
        return frozenset(s)

    def neg(c):
        if c[0] == 'not':
            return pos(c[1])
        if c[0] == 'or':
            return neg(c[1]) | neg(c[2])
        return frozenset()

    def walk(l, facts):
        for n in l:
            if isinstance(n, P):
                if n.val is not None:
                    term(n.val, facts, n)
            elif isinstance(n, Alt):
                term(n.cond, facts, n)
                walk(n.a, facts | pos(n.cond))
                walk(n.b, facts | neg(n.cond))
            elif isinstance(n, Loop):
                term(n.count, facts, n)
                if n.base is not None:
                    term(n.base, facts, n)
                walk(n.body, facts)
    walk(u.w.out, frozenset())
    for k in sorted(used):
        node, facts = used[k]
        c = conds.get(k)
        rep.count('unguarded uses')
        if k not in pr or c is None or c == T.TRUE:
            continue
        if T.has_unk(c):
            rep.unclear("%s.%s" % (u.name, k), 'condition of binding not traced')
            continue
        if any(conds.get(f) == c for f in facts):
            continue
        if writer_condition_covers(u, c, node):
            continue
        rep.finding("%s/needs/%s" % (u.name, k),
                    "%s: %s is read only from an optional part of the data but the writer takes it unconditionally, so an object without it cannot be saved"
                    % (u.name, k), loc(node))


def writer_condition_covers(u, c, node):
    """the property is bound under a condition on plain fields (not an optional block)
    which the writer repeats"""
    for x in T.walk(c):
        if x[0] == 'exttag':
            return False
    return True
