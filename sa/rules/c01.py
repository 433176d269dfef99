"""C01: every object kind's writer emits exactly the fields its reader takes, in the
same order, type and condition, and every field goes back to the property it came
from."""
from .common import *
from ..wire import roundtrip, self_paths, root_prop, generic

DEFAULTISH = ('ok', 'default')


def check(prog, rep, tier):
    rep.rule("For every registered object kind the statements of read() and write() (with inherited and helper code "
             "inlined) are turned into trees of wire fields; the two trees are aligned field by field. "
             "Rule: same wire type, byte order, size, repetition count, condition and constant at every position, "
             "and the value the reader binds to a property is the value the writer took from that property.")
    rep.assume("Python stream read/write and struct behave as documented; two fields of one wire type decode alike (C05 decides the codecs).")
    for u in units(prog, rep):
        decide(u, rep)
    rep.need('fields paired', 300)


def decide(u, rep):
    name = u.name
    if u.crash:
        rep.unclear(name, u.crash)
        return
    if isinstance(u.error, Undecided):
        rep.unclear(name, "%s (%s)" % (u.error.reason, loc(u.error.node)))
        return
    al = u.al
    rep.count('fields paired', al.pairs)
    if isinstance(u.error, Mismatch):
        e = u.error
        rep.finding("%s/%s/%s" % (name, e.rule, e.msg), "%s: %s" % (name, e.msg), "read %s, write %s" % (loc(e.r), loc(e.w)))
        return
    rep.count('object kinds aligned')
    bound_roots = set()
    for path, t in al.binds.items:
        if T.wires(t):
            bound_roots.add(root_prop(path))
    for path in al.binds.shapes:
        bound_roots.add(root_prop(path))
    for path, t in al.binds.items:
        if not T.wires(t):
            continue
        v = al.s(t)
        q = roundtrip(v, path)
        rep.count('properties traced')
        if q == 'lost' and reader_insists(u, t):
            q = 'ok'
        if q == 'lost':
            rep.finding("%s/value/%s" % (name, T.show(path)),
                        "%s: reading gives %s the value written from %s" % (name, T.show(path), T.show(v)), where(u, t))
        elif q == 'undecided':
            rep.unclear("%s %s" % (name, T.show(path)), "value %s not traced" % T.show(v))
        else:
            rep.sample("%s.%s <- %s" % (name, T.show(path), T.show(v)))
    for p in al.binds.weird:
        rep.unclear("%s %s" % (name, T.show(p)), 'container not traced')
    for kind, rl, wl, text in al.notes:
        if kind == 'reader-restricts':
            rep.finding("%s/reader-restricts/%s" % (name, text),
                        "%s: the reader refuses what the writer can emit: %s" % (name, text), "read %s, write %s" % (rl, wl))
    narrow(u, rep, u.w.out, [(a, True) for a in u.w.asserts])
    for r, w in al.skipped:
        if w.val is None or is_c(w.val) or T.has_unk(w.val):
            continue
        for p in self_paths(w.val):
            root = root_prop(p)
            if root and root not in bound_roots and root in props(u):
                rep.finding("%s/dropped/%s" % (name, T.show(p)),
                            "%s: %s is written but the reader discards it" % (name, T.show(p)), "read %s, write %s" % (loc(r), loc(w)))


LIMITS = {'u8': 0xff, 's8': 0x7f, 'u16': 0xffff, 's16': 0x7fff, 'u32': 0xffffffff, 's32': 0x7fffffff}


def narrow(u, rep, body, path):
    """where a field has a narrow and a wide form, the narrow one is used only for what fits it"""
    for n in body:
        if isinstance(n, Alt):
            for x, y, truth in ((n.a, n.b, True), (n.b, n.a, False)):
                for p in x:
                    if not isinstance(p, P) or p.kind not in LIMITS or p.val is None or is_c(p.val):
                        continue
                    wider = [q for q in y if isinstance(q, P) and q.kind in LIMITS and q.val == p.val and WIDTHS[q.kind] > WIDTHS[p.kind]]
                    if not wider:
                        continue
                    rep.count('narrow forms bounded')
                    v = holds_with(path + [(n.cond, truth)], p.val, LIMITS[p.kind] + 1)
                    if v is None:
                        rep.unclear('%s %s' % (u.name, T.show(p.val)), 'when the %s form is used' % p.kind)
                    elif v:
                        rep.finding('%s/narrow/%s' % (u.name, T.show(p.val)), '%s: %s can be saved as %s although it is larger than that holds (there is a %s form)' % (
                            u.name, T.show(p.val), p.kind, wider[0].kind), loc(p))
            narrow(u, rep, n.a, path + [(n.cond, True)])
            narrow(u, rep, n.b, path + [(n.cond, False)])
        elif isinstance(n, Loop):
            narrow(u, rep, n.body, path)
        elif isinstance(n, ExtLoop):
            for b in n.cases.values():
                narrow(u, rep, b, path)


def holds_with(conds, val, num):
    """can all the conditions hold when val is num? None: not understood"""
    atoms = []

    def parts(c):
        if c[0] in ('and', 'or', 'ite'):
            for x in c[1:]:
                parts(x)
        elif c[0] == 'not':
            parts(c[1])
        elif not is_c(c) and not on_val(c) and c not in atoms:
            atoms.append(c)

    def on_val(c):
        return c[0] == 'cmp' and (c[2] == val and is_c(c[3]) or c[3] == val and is_c(c[2])) or c == ('truthy', val)

    def ev(c, env):
        if c[0] == 'and':
            return all(ev(x, env) for x in c[1:])
        if c[0] == 'or':
            return any(ev(x, env) for x in c[1:])
        if c[0] == 'not':
            return not ev(c[1], env)
        if c[0] == 'ite':
            return ev(c[2] if ev(c[1], env) else c[3], env)
        if is_c(c):
            return bool(cv(c))
        if on_val(c):
            if c[0] == 'truthy':
                return bool(num)
            a, b = [num if x == val else cv(x) for x in c[2:4]]
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[c[1]]
        return env[c]
    for c, _ in conds:
        parts(c)
    if len(atoms) > 10 or any(val in list(T.walk(a)) for a in atoms):
        return None
    try:
        for bits in range(1 << len(atoms)):
            env = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
            if all(ev(c, env) == t for c, t in conds):
                return True
    except (KeyError, TypeError):
        return None
    return False


def props(u):
    return {n for n, _, _, _, _ in u.r.prog.propertydefs(u.cls)} if u.r is not None else set()


def reader_insists(u, t):
    """the reader itself requires this field to hold the constant"""
    for a in u.r.asserts:
        if a[0] == 'cmp' and a[1] in ('==', 'in') and a[2] == t and is_c(a[3]):
            return True
    ids = T.wires(t)
    return all(u.r.nodes.get(i) is not None and u.r.nodes[i].const is not None for i in ids)


def where(u, t):
    ids = T.wires(t)
    out = []
    for i in sorted(ids):
        n = u.r.nodes.get(i)
        if n is not None:
            out.append(loc(n))
    return "read " + ", ".join(out)
