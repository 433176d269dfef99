"""Abstract interpreter of the C++ half of the compiled reader.

Runs a function over symbolic data: bytes taken from the data become byte ids, branches are run on both
sides and merged, loops are run once with their counters as induction values.  The result is the tree of
what is read (in the world where all checks pass) together with the ways to fail and what memory holds."""
import json
import os
import re
import subprocess

from . import vals as V
from .vals import k, cb, add, sub, cast, ite, binop, neg, truth, cmpv, TRUE, FALSE

STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')


class Unclear(Exception):
    """A construct the interpreter does not model."""


class Broken(Exception):
    """The source cannot be parsed at all."""


def clang_ast(path):
    base = ['clang++', '-std=c++11', '-fsyntax-only', '-w', '-x', 'c++', '-Xclang', '-ast-dump=json']
    tries = [base + ['-nostdinc', '-nostdinc++', '-isystem', STUBS, '-include', 'stdint.h', '-include', 'stdio.h', path],
             base + ['-include', 'stdint.h', '-include', 'stdio.h', path]]
    err = ''
    for cmd in tries:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode == 0:
            return json.loads(p.stdout.decode('utf-8'))
        err = p.stderr.decode('utf-8', 'replace')[:500]
    raise Broken('clang cannot parse %s: %s' % (path, err))


SIZES = {'char': (1, True), 'signed char': (1, True), 'unsigned char': (1, False), 'bool': (1, False),
         'short': (2, True), 'unsigned short': (2, False), 'int': (4, True), 'unsigned int': (4, False), 'unsigned': (4, False),
         'long': (8, True), 'unsigned long': (8, False), 'long long': (8, True), 'unsigned long long': (8, False),
         'uint8_t': (1, False), 'int8_t': (1, True), 'uint16_t': (2, False), 'int16_t': (2, True),
         'uint32_t': (4, False), 'int32_t': (4, True), 'uint64_t': (8, False), 'int64_t': (8, True),
         'size_t': (8, False), 'ssize_t': (8, True), 'ptrdiff_t': (8, True), 'std::size_t': (8, False), 'size_type': (8, False)}


class St(object):
    """The abstract machine state."""
    __slots__ = ('mem', 'lens', 'init', 'gen', 'avail', 'facts', 'out', 'done', 'end', 'flags', 'failing', 'cond')

    def __init__(self):
        self.mem, self.lens, self.init, self.gen, self.avail = {}, {}, {}, {}, {}
        self.facts, self.out, self.done, self.end, self.flags, self.failing = [], [], None, None, {}, False
        self.cond = []

    def copy(self):
        s = St()
        s.mem, s.lens, s.init, s.gen, s.avail = dict(self.mem), dict(self.lens), dict(self.init), dict(self.gen), dict(self.avail)
        s.facts, s.out, s.done, s.end = list(self.facts), [], self.done, self.end
        s.flags, s.failing, s.cond = dict(self.flags), self.failing, list(self.cond)
        return s

    def take(self, o):
        for a in St.__slots__:
            setattr(self, a, getattr(o, a))


class Frame(object):
    def __init__(self, fn, uid):
        self.fn, self.uid = fn, uid
        self.fails = []           # (value, flags, reason)
        self.rets = []
        self.statuses = {}        # id -> (callee, line)
        self.handled = set()
        self.loop = None


def hasflag(c):
    return isinstance(c, tuple) and (c[:1] == ('flag',) or any(hasflag(x) for x in c))


class Machine(object):
    def __init__(self, path):
        self.path = path
        self.ast = clang_ast(path)
        self.fns, self.byname, self.records, self.enums, self.decls = {}, {}, {}, {}, {}
        self.enumtypes = set()
        self.calls = {}           # fn name -> number of times it was run
        self.lines = {}
        self._lines(self.ast, [0, ''])
        self._index(self.ast)
        self.n = 0
        self.quiet = 0
        self.reset()

    def reset(self):
        self.findings = []        # (rule, key, where, text)
        self.unclears = []
        self.dropped = []         # (caller, callee, line, fails)
        self.depth = 0
        self.cursor = None
        self.buf = None
        self.loops = {}
        self.reads = 0
        self.obligations = 0

    def fresh(self):
        self.n += 1
        return self.n

    # -- the syntax tree

    def _lines(self, n, cur):
        """Lines are only printed when they change."""
        stack = [n]
        while stack:
            n = stack.pop()
            if not isinstance(n, dict):
                continue
            for key in ('loc', 'range'):
                r = n.get(key)
                if not isinstance(r, dict):
                    continue
                parts = [r] if key == 'loc' else [r.get('begin') or {}, r.get('end') or {}]
                for i, q in enumerate(parts):
                    for p in ([q['spellingLoc'], q['expansionLoc']] if 'expansionLoc' in q else [q]):
                        if 'file' in p:
                            cur[1] = p['file']
                        if 'line' in p:
                            cur[0] = p['line']
                    if key == 'range' and i == 0:
                        n['_line'] = cur[0]
                    elif key == 'loc':
                        n.setdefault('_line', cur[0])
                        n['_file'] = cur[1]
            for c in reversed(n.get('inner', ())):
                stack.append(c)

    def _index(self, n, scope=''):
        kind = n.get('kind')
        if kind in ('FunctionDecl', 'CXXMethodDecl'):
            body = [c for c in n.get('inner', ()) if c.get('kind') == 'CompoundStmt']
            n['_params'] = [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            if body:
                n['_body'] = body[0]
                self.byname.setdefault(n.get('name'), n)
            self.fns[n.get('id')] = n
        elif kind == 'CXXRecordDecl' and n.get('name') and n.get('completeDefinition'):
            fields = [(c.get('name'), self.ty(c), n.get('tagUsed')) for c in n.get('inner', ()) if c.get('kind') == 'FieldDecl']
            self.records.setdefault(n['name'], fields)
        elif kind == 'EnumDecl':
            self.enumtypes.add(n.get('name'))
            v = 0
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    x = self._const(c)
                    v = x if x is not None else v
                    self.enums[c['id']] = v
                    self.enums[c['name']] = v
                    v += 1
        if kind in ('VarDecl', 'ParmVarDecl', 'FieldDecl'):
            self.decls[n.get('id')] = n
        for c in n.get('inner', ()):
            self._index(c)

    def _const(self, n):
        for c in n.get('inner', ()):
            if c.get('value') is not None and c.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
                return int(c['value'])
            r = self._const(c)
            if r is not None:
                return r
        return None

    @staticmethod
    def ty(n):
        t = n.get('type') or {}
        return (t.get('desugaredQualType') or t.get('qualType') or '')

    def strip(self, t):
        t = re.sub(r'\b(const|volatile|struct|union|enum|class)\b', '', t).strip()
        return re.sub(r'\s+', ' ', t).replace(' &', '&').replace(' *', '*').strip()

    def intty(self, t):
        t = self.strip(t)
        if t in SIZES:
            return SIZES[t]
        if t.split('::')[-1] in SIZES:
            return SIZES[t.split('::')[-1]]
        if t in self.enumtypes or t.split('::')[-1] in self.enumtypes:
            return (4, False)
        return None

    def isvec(self, t):
        t = self.strip(t).rstrip('&*')
        return t.startswith('vector<') or t.startswith('std::vector<') or '::vector<' in t[:24]

    def vecof(self, t):
        m = re.search(r'vector<(.*)>', self.strip(t))
        return re.sub(r',\s*std::allocator<.*$', '', m.group(1)).strip() if m else None

    def record(self, t):
        t = self.strip(t)
        t = t.split('::')[-1]
        return t if t in self.records else None

    def where(self, n):
        return 'src/avb/%s:%s' % (os.path.basename(self.path), n.get('_line', '?'))

    # -- reporting

    def find(self, rule, key, node, text):
        if self.quiet:
            return
        f = (rule, key, self.where(node) if isinstance(node, dict) else node, text)
        if f not in self.findings:
            self.findings.append(f)

    def unclear(self, node, text):
        raise Unclear('%s: %s' % (self.where(node) if isinstance(node, dict) else node, text))

    # -- memory

    def union_member(self, t, name):
        r = self.records.get(self.record(t) or '')
        return bool(r) and r[0][2] == 'union'

    def load(self, st, p, t, node):
        """The value at a location, seen as type t."""
        if p[0] == 'ite':
            return ite(p[1], self.load(st, p[2], t, node), self.load(st, p[3], t, node))
        if p[0] == 'curlv':
            return self.byte(st, p[1], p[2], node)
        if p[0] == 'rptr':
            if p[2][0] == 'cur':
                sz = self.intty(p[1])
                if sz is None:
                    self.unclear(node, 'data seen as %s' % p[1])
                v = None
                slots = []
                for i in range(sz[0]):
                    b = self.byte(st, p[2][1], p[2][2] + i, node)
                    slots.append(b[1][0] if b[0] == 'bv' else None)
                return ('bv', tuple(slots), sz[1])
            v = self.load(st, p[2], None, node)
            return self.view(v, p[1], node)
        if p[0] != 'ptr':
            self.unclear(node, 'reads through %s' % (p[0],))
        self.live(st, p, node)
        loc = p[1]
        if t is not None and (self.isvec(t) or self.record(t)):
            return p
        v = self.pos(st) if loc == self.cursor else st.mem.get(loc)
        if v is None:
            v = self.missing(st, loc, t, node)
        if t is not None:
            v = self.view(v, t, node)
        return v

    def view(self, v, t, node):
        t = self.strip(t)
        it = self.intty(t)
        if v[0] == 'ite':
            return ite(v[1], self.view(v[2], t, node), self.view(v[3], t, node))
        if it and v[0] == 'bv' and len(v[1]) != it[0]:
            return cast(v, it[0], it[1])
        if it and v[0] == 'bv' and v[2] != it[1]:
            return ('bv', v[1], it[1])
        if it and v[0] == 'k' and t != 'bool':
            return cast(v, it[0], it[1])
        if t == 'double' and v[0] == 'bv' and len(v[1]) == 8:
            return ('dbl', v[1])
        if it and it[0] == 8 and v[0] == 'dbl':
            return ('bv', v[1], it[1])
        return v

    def missing(self, st, loc, t, node):
        # an element reached under another index
        for i, step in enumerate(loc):
            if isinstance(step, tuple) and step[0] == 'e':
                pre = loc[:i]
                n = len(pre)
                for q in st.mem:
                    if len(q) > n and q[:n] == pre and q[n] != step and q[n + 1:] == loc[n + 1:] and not (q[n][0] == 'e' and distinct(q[n][1], step[1])):
                        return ('op', 'elem', ('str', repr(loc)), ('k', 0))
        for i in range(len(loc), 0, -1):
            m = st.init.get(loc[:i])
            if m == 'zero':
                return ('str', '') if False else ('k', 0)
            if m == 'uninit':
                self.find('uninit', '%s' % self.lname(loc), node, 'reads %s, which nothing has set' % self.lname(loc))
                return ('uninit',)
        return ('op', 'mem', ('str', repr(loc)), ('k', 0))

    def lname(self, loc):
        out = []
        for s in loc:
            if s[0] == 'v':
                d = self.decls.get(s[1])
                out.append(d.get('name', 'local') if d else str(s[1]))
            elif s[0] == 'f':
                out.append('.' + s[1])
            elif s[0] == 'e':
                out.append('[]')
            elif s[0] == 'py':
                out.append(s[1])
        return ''.join(out)

    def live(self, st, p, node):
        for vl, g in p[2]:
            self.obligations += 1
            if st.gen.get(vl, 0) != g:
                self.find('dangling', self.lname(vl), node, 'uses a reference into %s after it may have moved' % self.lname(vl))

    def store(self, st, p, v, t, node):
        if p[0] == 'ite':
            self.unclear(node, 'store through an undecided reference')
        if p[0] == 'rptr' and p[2][0] == 'ptr':
            p = p[2]
        if p[0] != 'ptr':
            self.unclear(node, 'store through %s' % (p[0],))
        self.live(st, p, node)
        if v[0] == 'ptr' and t is not None and (self.record(t) or self.isvec(t)):
            self.copy_tree(st, v[1], p[1], self.isvec(t))
            return
        st.mem[p[1]] = v
        self.flagging(st, p[1], v)

    def flagging(self, st, loc, v):
        if self.buf is not None and len(loc) == len(self.buf) + 1 and loc[:-1] == self.buf and loc[-1][0] == 'f' \
                and loc[-1][1] not in ('ptr', 'root', 'end') and loc != self.cursor:
            st.flags[loc[-1][1]] = v

    def copy_tree(self, st, src, dst, vec=False):
        n = len(src)
        for tab in (st.mem, st.lens, st.init, st.gen):
            for q in [q for q in tab if q[:len(dst)] == dst and (len(q) > len(dst) or tab is not st.mem or True)]:
                if tab is not st.gen:
                    del tab[q]
            for q in [q for q in tab if q[:n] == src]:
                if tab is st.gen:
                    continue
                tab[dst + q[n:]] = tab[q]
        if dst not in st.init:
            for i in range(n, 0, -1):
                if src[:i] in st.init:
                    st.init[dst] = st.init[src[:i]]
                    break
        if vec:
            st.lens.setdefault(dst, self.length(st, src))
            st.gen[dst] = self.fresh()

    # -- vectors

    def length(self, st, loc):
        v = st.lens.get(loc)
        if v is not None:
            return v
        for i, step in enumerate(loc):
            if isinstance(step, tuple) and step[0] == 'e':
                pre = loc[:i]
                for q in list(st.lens) + list(st.mem):
                    if len(q) > i and q[:i] == pre and q[i] != step:
                        v = ('len', repr(loc))
                        st.lens[loc] = v
                        return v
        for i in range(len(loc), 0, -1):
            if loc[:i] in st.init:
                st.lens[loc] = k(0)
                return k(0)
        v = ('len', repr(loc))
        st.lens[loc] = v
        return v

    def grow(self, st, loc):
        st.gen[loc] = self.fresh()

    def elem(self, st, loc, idx, node, check=True):
        if check:
            self.bound(st, loc, idx, node)
        idx = cb(idx)
        return ('ptr', loc + (('e', idx),), ((loc, st.gen.get(loc, 0)),))

    def bound(self, st, loc, idx, node):
        """0 <= idx < len(loc)"""
        self.obligations += 1
        n = self.length(st, loc) if loc not in self.arrays else self.arrays[loc]
        r = self.inside(st, idx, n)
        if r is False:
            self.find('bounds', self.lname(loc), node, 'index %s is not known to be inside %s' % (show(idx), self.lname(loc)))
        elif r is None:
            self.unclears.append('%s: index %s of %s' % (self.where(node), show(idx), self.lname(loc)))

    def inside(self, st, idx, n):
        c = cmpv('lt', idx, n)
        d = V.decide(c, st.facts)
        if d:
            lo = self.low(idx)
            return True if lo is not None and lo >= 0 else None
        if d is False:
            return False
        ci, di = V.lin(idx)
        ivs = [a for a in di if a[0] == 'iv']
        if len(ivs) == 1 and len(di) == 1 and ivs[0] in di and di[ivs[0]] == 1:
            cnt = self.loops.get(ivs[0][1])
            if cnt is not None:
                # idx <= count - 1 + ci
                top = add(cnt, k(ci))
                d = V.decide(cmpv('le', top, n), st.facts)
                if d:
                    return True
                if cb(top) == cb(n):
                    return True
                return False if self.known(top) and self.known(n) else None
        # n = something + m, idx = m' constant
        cn, dn = V.lin(n)
        if not di and all(self.low(a) is not None and self.low(a) >= 0 and x > 0 for a, x in dn.items()):
            if ci < cn:
                return True
            for a in dn:
                if V.decide(cmpv('lt', k(ci - cn), a), st.facts):
                    return True
            return False if self.known(n) else None
        di2 = dict(di)
        diff = sub(n, idx)
        if diff[0] == 'k':
            return diff[1] > 0
        return None

    def low(self, v):
        if v[0] == 'k':
            return v[1]
        c, d = V.lin(v)
        tot = c
        for a, x in d.items():
            lo = V.krange(a)[0] if a[0] != 'len' else 0
            if lo is None or x < 0:
                return None
            tot += x * lo
        return tot

    def known(self, v):
        c, d = V.lin(v)
        return all(a[0] in ('bv', 'iv') for a in d)

    arrays = {}

    # -- the data

    def pos(self, st):
        """The cursor; one that depends on a condition is settled here."""
        c = st.mem.get(self.cursor)
        if c is not None and c[0] == 'ite':
            c = V.assume(c, st.facts)
            if c[0] == 'ite':
                self.force(st, c)
                return st.mem[self.cursor]
            st.mem[self.cursor] = c
        return c

    def force(self, st, c):
        def leaves(c, facts):
            c = V.assume(c, facts)
            if c[0] == 'ite':
                a = leaves(c[2], facts + [c[1]])
                b = leaves(c[3], facts + [neg(c[1])])
                return [('Alt', c[1], a, b)]
            e, off = st.done
            return [('B', e, off, c[2])] if c[2] != off else []

        def least(c):
            return min(least(c[2]), least(c[3])) if c[0] == 'ite' else st.avail.get(c[1], 0) - c[2]
        left = least(c)
        st.out.extend(leaves(c, st.facts))
        self.epoch(st, left)

    def byte(self, st, e, off, node):
        self.obligations += 1
        if not st.failing and st.avail.get(e, 0) <= off and not self.blockok(st, e, off):
            self.find('overread', self.curfn(), node, 'reads a byte that is not known to be inside the data')
        self.reads += 1
        return ('bv', ((e, off),), False)

    def blockok(self, st, e, off):
        return False

    def curfn(self):
        return self.stack[-1] if self.stack else '?'

    def flush(self, st):
        """Put the bytes taken since the last flush in the tree."""
        c = self.pos(st)
        if c is None:
            return
        if c[0] != 'cur':
            return
        e, off = st.done
        if c[1] == e:
            if c[2] != off:
                st.out.append(('B', e, off, c[2]))
            st.done = (e, c[2])

    def epoch(self, st, left=0):
        """Start counting positions anew."""
        e = self.fresh()
        st.mem[self.cursor] = ('cur', e, 0)
        st.done = (e, 0)
        st.avail[e] = max(0, left)
        return e

    def left(self, st):
        c = self.pos(st)
        if c is None or c[0] != 'cur':
            return 0
        return st.avail.get(c[1], 0) - c[2]

    # -- merging

    def merge(self, st, base, cond, sa, sb):
        """Join two live states into st (which supplies the tree so far)."""
        lazy = None
        if self.cursor is not None:
            ca, cb_ = self.peekpos(sa), self.peekpos(sb)
            if ca != cb_ and sa.done == sb.done and self.onepoch(ca, sa.done[0]) and self.onepoch(cb_, sa.done[0]):
                same = True
                lazy = ite(cond, ca, cb_)
            elif ca != cb_:
                self.pos(sa)
                self.pos(sb)
                self.flush(sa)
                self.flush(sb)
                left = min(self.left(sa), self.left(sb))
                same = False
            else:
                same = True
        else:
            same = True
        outa, outb = sa.out, sb.out
        pre = []
        if not same or sa.done != sb.done:
            if same:
                self.flush(sa)
                self.flush(sb)
            # bytes both sides start with
            ia, ib = firstb(outa), firstb(outb)
            if ia is not None and ib is not None and outa[ia][1:3] == outb[ib][1:3]:
                e, o, x, y = outa[ia][1], outa[ia][2], outa[ia][3], outb[ib][3]
                m = min(x, y)
                if m > o:
                    pre = [('B', e, o, m)]
                    outa = outa[:ia] + ([('B', e, m, x)] if x > m else []) + outa[ia + 1:]
                    outb = outb[:ib] + ([('B', e, m, y)] if y > m else []) + outb[ib + 1:]
        out = st.out + pre
        if outa or outb:
            out = out + [('Alt', cond, outa, outb)]
        mem = {}
        for q in set(sa.mem) | set(sb.mem):
            va, vb = sa.mem.get(q), sb.mem.get(q)
            if va is None or vb is None:
                x, other = (va, sb) if vb is None else (vb, sa)
                d = self.default(other, q)
                if d is None:
                    mem[q] = x
                elif vb is None:
                    mem[q] = self.mergeval(cond, x, d)
                else:
                    mem[q] = self.mergeval(cond, d, x)
            elif va == vb:
                mem[q] = va
            else:
                mem[q] = self.mergeval(cond, va, vb)
        lens = {}
        for q in set(sa.lens) | set(sb.lens):
            if q not in sa.lens and not self.exists(sa, q):
                lens[q] = sb.lens[q]
                continue
            if q not in sb.lens and not self.exists(sb, q):
                lens[q] = sa.lens[q]
                continue
            va = sa.lens[q] if q in sa.lens else self.length(sa, q)
            vb = sb.lens[q] if q in sb.lens else self.length(sb, q)
            lens[q] = va if cb(va) == cb(vb) else ('len', 'm%d' % self.fresh())
        gen = {}
        for q in set(sa.gen) | set(sb.gen):
            ga, gb = sa.gen.get(q, 0), sb.gen.get(q, 0)
            gen[q] = ga if ga == gb else self.fresh()
        init = dict(sa.init)
        init.update(sb.init)
        avail = {}
        for e in set(sa.avail) & set(sb.avail):
            avail[e] = min(sa.avail[e], sb.avail[e])
        facts = [f for f in sa.facts if f in sb.facts]
        flags = dict(sa.flags)
        flags.update(sb.flags)
        st.mem, st.lens, st.gen, st.init, st.avail, st.facts, st.out, st.flags = mem, lens, gen, init, avail, facts, out, flags
        st.done = sa.done
        st.failing = sa.failing
        if lazy is not None:
            st.mem[self.cursor] = lazy
        if not same:
            self.epoch(st, left)
        return st

    def peekpos(self, st):
        c = st.mem.get(self.cursor)
        return V.assume(c, st.facts) if c is not None and c[0] == 'ite' else c

    def onepoch(self, c, e):
        if c is None:
            return False
        if c[0] == 'ite':
            return self.onepoch(c[2], e) and self.onepoch(c[3], e)
        return c[0] == 'cur' and c[1] == e

    def exists(self, st, loc):
        for i, step in enumerate(loc):
            if isinstance(step, tuple) and step[0] == 'e':
                pre = loc[:i + 1]
                if pre not in st.init and loc[:i] + (('e', '*'),) not in st.init and not any(q[:i + 1] == pre for q in st.mem):
                    return False
            elif step[0] == 'v' and loc[:1] not in st.init and not any(q[:1] == loc[:1] for q in list(st.mem) + list(st.lens)):
                return False
        return True

    def default(self, st, loc):
        """What a location the state never set holds; None when it does not exist there."""
        for i, step in enumerate(loc):
            if isinstance(step, tuple) and step[0] == 'e':
                # does the element exist in that state?
                pre = loc[:i + 1]
                if pre not in st.init and loc[:i] + (('e', '*'),) not in st.init and not any(q[:i + 1] == pre for q in st.mem):
                    return None
                break
        for i in range(len(loc), 0, -1):
            m = st.init.get(loc[:i])
            if m == 'zero':
                return k(0)
            if m == 'uninit':
                return ('uninit',)
        return None

    def mergeval(self, cond, a, b):
        if a == ('uninit',) or b == ('uninit',):
            return ite(cond, a, b)
        if a[0] == 'cur' and b[0] == 'cur':
            return ('op', 'cur?', a, b)
        return ite(cond, a, b)

    # -- statements

    stack = ()

    def call(self, st, fn, args, node):
        """Run a function; args are values. Returns its value (a status when it can fail)."""
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            self.unclear(node, 'recursion in %s' % fn.get('name'))
        name = fn.get('name')
        self.calls[name] = self.calls.get(name, 0) + 1
        fr = Frame(fn, self.fresh())
        for p, a in zip(fn['_params'], args):
            loc = (('v', p['id'], fr.uid),)
            t = self.ty(p)
            if a[0] == 'ptr' and not t.rstrip().endswith(('*', '&')) and (self.record(t) or self.isvec(t)):
                self.copy_tree(st, a[1], loc, self.isvec(t))
            else:
                st.mem[loc] = a
        old = self.stack
        self.stack = old + (name,)
        try:
            self.run([fn['_body']], st, fr)
        finally:
            self.stack = old
            self.depth -= 1
        end, st.end = st.end, None
        for sid, (callee, line, fails) in fr.statuses.items():
            if sid not in fr.handled:
                self.drop(name, callee, line, fails)
        if end is not None and end[0] == 'fail':
            fr.fails.append((end[1], dict(st.flags), end[2]))
            st.end = ('fail', None, end[2])
            return k(0)
        if end is not None and end[0] == 'ret':
            val = end[1]
        else:
            val = ('void',)
        if fr.fails and not st.failing:
            sid = self.fresh()
            self.status[sid] = (name, self.where(node) if isinstance(node, dict) else node, fr.fails)
            return ('st', sid, val)
        return val

    status = {}

    def drop(self, caller, callee, line, fails):
        if not self.quiet:
            self.dropped.append((caller, callee, line, fails))

    def run(self, todo, st, fr):
        todo = list(todo)
        while todo and st.end is None:
            s = todo.pop(0)
            if not isinstance(s, dict) or not s.get('kind'):
                continue
            kind = s['kind']
            if kind == 'CompoundStmt':
                todo[:0] = s.get('inner', [])
            elif kind == 'NullStmt':
                pass
            elif kind == 'DeclStmt':
                for d in s.get('inner', ()):
                    if d.get('kind') == 'VarDecl':
                        self.declare(d, st, fr)
                        if st.end:
                            return
            elif kind == 'IfStmt':
                inner = [c for c in s['inner']]
                if s.get('hasInit') or s.get('hasVar'):
                    self.unclear(s, 'if with a declaration')
                c = self.cond(inner[0], st, fr)
                if st.end:
                    return
                a = [inner[1]]
                b = [inner[2]] if len(inner) > 2 else []
                self.branch(c, a, b, st, todo, fr, s)
            elif kind == 'SwitchStmt':
                self.switch(s, st, todo, fr)
            elif kind == 'ReturnStmt':
                v = ('void',)
                e = s['inner'][0] if s.get('inner') else {}
                while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and e.get('inner') \
                        and (e['kind'] != 'ImplicitCastExpr' or e.get('castKind') in ('IntegralCast', 'LValueToRValue', 'NoOp')):
                    e = e['inner'][0]
                if e.get('kind') == 'ConditionalOperator' and self.intty(self.ty(e)):
                    q, x, y = e['inner']
                    todo[:0] = [dict(s, kind='IfStmt', inner=[q, dict(s, inner=[x]), dict(s, inner=[y])], hasInit=False, hasVar=False)]
                    continue
                if s.get('inner'):
                    v = self.ev(s['inner'][0], st, fr)
                    if st.end:
                        return
                self.ret(v, st, fr, s)
            elif kind in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                self.loop(s, st, todo, fr)
            elif kind == 'BreakStmt':
                st.end = ('break',)
            elif kind == 'ContinueStmt':
                st.end = ('cont',)
            elif kind in ('CXXThrowExpr',):
                st.end = ('fail', None, 'throw')
            elif kind in ('GotoStmt', 'LabelStmt', 'CXXTryStmt', 'AsmStmt'):
                self.unclear(s, kind)
            else:
                v = self.ev(s, st, fr)
                if v[0] == 'st' and not st.end:
                    self.note(v, fr)

    def note(self, v, fr):
        """A status enters a frame."""
        if v[0] == 'st':
            fr.statuses.setdefault(v[1], self.status[v[1]])
        return v

    def ret(self, v, st, fr, node):
        t = self.ty(fr.fn).split('(')[0].strip()
        if v[0] == 'st':
            fr.handled.add(v[1])
            for f in self.status[v[1]][2]:
                fr.fails.append((f[0], f[1], f[2]))
            v = v[2]
        if v[0] == 'ite':
            v = V.assume(v, st.facts)
        if st.failing or set(st.flags) - {'error_message'}:
            st.end = ('fail', v, self.where(node))
            return
        if v[0] == 'k' and v[1] < 0 and self.intty(t) and self.strip(t) != 'bool':
            st.end = ('fail', v, self.where(node))
            return
        st.end = ('ret', v)

    def declare(self, d, st, fr):
        loc = (('v', d['id'], fr.uid),)
        t = self.ty(d)
        init = [c for c in d.get('inner', ()) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Attr')] if d.get('init') else []
        if d.get('storageClass') == 'static' and not t.startswith('const'):
            self.unclear(d, 'static local')
        st.mem.pop(loc, None)
        m = re.match(r'(.*)\[(\d+)\]$', self.strip(t))
        for tab in (st.mem, st.lens, st.init):
            for q in [q for q in tab if q[:1] == loc]:
                del tab[q]
        if m:
            self.arrays = dict(self.arrays)
            self.arrays[loc] = k(int(m.group(2)))
            st.init[loc] = 'uninit'
            if init:
                self.initlist(init[0], loc, st, fr)
            return
        if not init:
            st.init[loc] = 'uninit'
            return
        e = init[0]
        if t.rstrip().endswith('&') or t.rstrip().endswith('&&'):
            v = self.ev(e, st, fr)
            if st.end:
                return
            if v[0] not in ('ptr', 'curlv', 'ite', 'rptr'):
                # a temporary
                tmp = (('v', 'tmp', self.fresh()),)
                st.mem[tmp] = v
                v = ('ptr', tmp, ())
            st.mem[loc] = v
            return
        self.init_at(e, loc, t, st, fr)

    def init_at(self, e, loc, t, st, fr):
        """Initialise the object at loc with expression e."""
        k_ = e.get('kind')
        while k_ in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') and e.get('inner'):
            e = e['inner'][0]
            k_ = e.get('kind')
        if k_ == 'InitListExpr':
            self.initlist(e, loc, st, fr)
            return
        if k_ == 'ImplicitValueInitExpr':
            st.init[loc] = 'zero'
            return
        if k_ in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (self.record(t) or self.isvec(t)):
            args = e.get('inner', [])
            if not args:
                st.init[loc] = 'zero' if (e.get('zeroing') or k_ == 'CXXTemporaryObjectExpr' and False) else 'uninit'
                if self.isvec(t):
                    st.lens[loc] = k(0)
                return
            vs = [self.ev(a, st, fr) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if st.end:
                return
            if self.isvec(t):
                if len(vs) == 1 and vs[0][0] == 'ptr':
                    self.copy_tree(st, vs[0][1], loc, True)
                    return
                if len(vs) == 1 or (len(vs) == 2 and vs[0][0] not in ('ptr', 'cur')):
                    st.lens[loc] = k(0)
                    st.init[loc] = 'uninit'
                    self.resize(st, ('ptr', loc, ()), vs[0], e)
                    return
                if len(vs) == 2 and vs[0][0] == 'cur':
                    st.lens[loc] = k(0)
                    st.init[loc] = 'uninit'
                    self.assign(st, ('ptr', loc, ()), vs[0], vs[1], e)
                    return
            if len(vs) == 1 and vs[0][0] == 'ptr':
                self.copy_tree(st, vs[0][1], loc)
                return
            self.unclear(e, 'constructor of %s' % t)
        v = self.ev(e, st, fr)
        if st.end:
            return
        self.note(v, fr)
        if v[0] == 'ptr' and (self.record(t) or self.isvec(t)):
            self.copy_tree(st, v[1], loc, self.isvec(t))
            return
        st.mem[loc] = v

    def initlist(self, e, loc, st, fr):
        t = self.ty(e)
        items = e.get('inner', [])
        rec = self.record(t)
        st.init[loc] = 'zero'
        if rec:
            fields = self.records[rec]
            if fields and fields[0][2] == 'union':
                for it in items:
                    self.init_at(it, loc + (('f', '*u'),), fields[0][1], st, fr)
                return
            for (name, ft, tag), it in zip(fields, items):
                self.init_at(it, loc + (('f', name),), ft, st, fr)
            return
        m = re.match(r'(.*)\[(\d+)\]$', self.strip(t))
        if m:
            items = [i for i in (e.get('array_filler') and e['array_filler'][1:] or items)]
            for i, it in enumerate(items):
                self.init_at(it, loc + (('e', k(i)),), m.group(1), st, fr)
            return
        if len(items) == 1:
            self.init_at(items[0], loc, t, st, fr)
            return
        if items:
            self.unclear(e, 'initialiser list')

    # -- branching

    def branch(self, c, a, b, st, todo, fr, node):
        """Run both sides of a condition; the rest of the frame runs inside when only one side goes on."""
        c = self.settle(c, a, b, st, todo, fr, node)
        if st.end:
            return
        d = V.decide(c, st.facts)
        if d is True:
            todo[:0] = a
            return
        if d is False:
            todo[:0] = b
            return
        if hasflag(c):
            self.flush(st)
        sa, sb = st.copy(), st.copy()
        sa.facts.append(c)
        sb.facts.append(neg(c))
        self.run(a, sa, fr)
        self.run(b, sb, fr)
        self.join(c, sa, sb, st, todo, fr, node)

    def join(self, c, sa, sb, st, todo, fr, node):
        for x in (sa, sb):
            # an error is noted, and the function returns all the same
            if x.end and x.end[0] == 'ret' and not x.failing and self.noted(x.flags, st.flags):
                fr.fails.append((x.end[1] if x.end[1] != ('void',) else k(0), dict(x.flags), 'error noted at ' + self.where(node)))
            # a message set ahead of the test that uses it
            if x.end and x.end[0] == 'fail' and 'error_message' in st.flags and x.flags.get('error_message') == st.flags['error_message']:
                self.preset = self.preset | {repr(st.flags['error_message'])}
        ea, eb = sa.end, sb.end
        if ea and ea[0] == 'fail' and not sa.failing:
            fr.fails.append((ea[1], dict(sa.flags), ea[2]))
        if eb and eb[0] == 'fail' and not sb.failing:
            fr.fails.append((eb[1], dict(sb.flags), eb[2]))
        fa, fb = ea and ea[0] == 'fail', eb and eb[0] == 'fail'
        if fa and fb:
            st.end = ('fail', ea[1], ea[2])
            fr.fails.pop()
            return
        if fa or fb:
            live = sb if fa else sa
            live.out = st.out + [('Assert', neg(c) if fa else c, self.where(node))] + live.out
            st.take(live)
            return
        if not ea and not eb:
            # an error noted on one side only, and the code goes on
            for bad, live in ((sa, sb), (sb, sa)):
                if self.noted(bad.flags, st.flags) and not self.noted(live.flags, st.flags) and not bad.failing and not live.failing:
                    self.goes_on(bad, live, todo, fr, node)
            self.merge(st, None, c, sa, sb)
            return
        if ea and eb:
            self.ends(c, sa, sb, st, fr, node)
            return
        # one side leaves the frame
        gone, live, cond = (sa, sb, c) if ea else (sb, sa, neg(c))
        if gone.end[0] == 'break' and fr.loop is not None and fr.loop.get('sym') and gone.end[0] == 'break':
            fr.loop['breaks'].append((cond, gone))
            live.out = st.out + [('BreakIf', cond, gone.out)] + live.out
            st.take(live)
            return
        rest = list(todo)
        del todo[:]
        self.run(rest, live, fr)
        if live.end is None and gone.end[0] == 'ret':
            if gone.end[1] == ('void',):
                live.end = ('ret', ('void',))
            elif fr.loop is not None:
                self.unclear(node, 'return out of a loop')
            else:
                live.end = ('ret', ('void',))
        if live.end and live.end[0] == 'fail':
            if not live.failing:
                fr.fails.append((live.end[1], dict(live.flags), live.end[2]))
            gone.out = st.out + [('Assert', cond, self.where(node))] + gone.out
            st.take(gone)
            return
        if live.end is None and gone.end[0] == 'cont':
            live.end = ('cont',)
        if gone is sa:
            self.ends(c, gone, live, st, fr, node)
        else:
            self.ends(c, live, gone, st, fr, node)

    preset = frozenset()

    def noted(self, flags, before):
        x = flags.get('error_message', ('str', ''))
        return x != ('str', '') and repr(x) not in self.preset and x != before.get('error_message', ('str', ''))

    def goes_on(self, bad, live, todo, fr, node):
        """A way to fail that only notes its error: what does the function return then?"""
        sf, flags = bad.copy(), dict(bad.flags)
        self.quiet += 1
        keep = fr.fails, fr.handled, fr.statuses, fr.loop
        fr.fails, fr.handled, fr.statuses, fr.loop = [], set(fr.handled), dict(fr.statuses), None
        try:
            self.run(list(todo), sf, fr)
        except Unclear:
            flags['?'] = True
        finally:
            self.quiet -= 1
            fr.fails, fr.handled, fr.statuses, fr.loop = keep
        v = k(0)
        if sf.end and sf.end[0] == 'fail':
            v = sf.end[1]
        elif sf.end:
            flags['?'] = True
        else:
            # a loop goes on: does anything but the note tell?
            for q in set(bad.mem) | set(live.mem):
                if len(q) == 1 and q[0][0] == 'v' and q in bad.mem and q in live.mem and bad.mem[q] != live.mem[q] and bad.mem[q][0] != 'cur':
                    flags['?'] = True
        if v is not None and v[0] == 'void':
            v = k(0)
        fr.fails.append((v, flags, 'error noted at ' + self.where(node)))

    def ends(self, c, sa, sb, st, fr, node):
        """Merge two states that both left the frame."""
        ea, eb = sa.end, sb.end
        if ea[0] != eb[0]:
            self.unclear(node, 'mixed ways out: %s and %s' % (ea[0], eb[0]))
        sa.end = sb.end = None
        if ea[0] == 'ret':
            va, vb = ea[1], eb[1]
            if va[0] in V.CONDS or vb[0] in V.CONDS or (va in (TRUE, FALSE) and vb in (TRUE, FALSE)):
                v = V.cite(c, va, vb)
            else:
                v = ite(c, va, vb)
        self.merge(st, None, c, sa, sb)
        st.end = ('ret', v) if ea[0] == 'ret' else ea

    def settle(self, c, a, b, st, todo, fr, node):
        """Resolve the parts of a condition about failures and about how much data is left: the failing
        side is run to see that it reports, and the analysis goes on where everything succeeded."""
        c = self.resolve(c)
        if c[0] == 'stc':
            for bits in c[1]:
                fr.statuses.setdefault(bits[0], self.status[bits[0]])
            side = c[3]
            ok = True
            if side is None:
                side = None
            fails = []
            for sid, op, x, y in c[1]:
                for f in self.status[sid][2]:
                    fails.append((sid, op, x, y, f))
            for sid, op, x, y, f in fails:
                fv = f[0] if f[0] is not None else None
                if fv is None:
                    continue          # thrown: never reaches the test
                t = truth(fv) if op is None else cmpv(op, fv if x is None else x, fv if y is None else y)
                t = self.throughneg(c, sid, t)
                d = V.decide(t, [])
                if d is None:
                    ok = False
                    continue
                if not self.failing_side(a if d else b, st, todo, fr, f[1], sid, fv):
                    ok = False
            if ok:
                for sid, op, x, y in c[1]:
                    fr.handled.add(sid)
            c = self.resolve(c[2])
            return self.settle(c, a, b, st, todo, fr, node)
        if c[0] == 'and' or c[0] == 'or':
            # availability mixed with another condition
            for i in (1, 2):
                x = self.resolve(c[i])
                if self.is_avail(x):
                    good = self.good_avail(x)
                    if (c[0] == 'or') == good and self.atend(x, a if good else b, st, fr, node):
                        return self.settle(c[3 - i], a, b, st, todo, fr, node)
                    self.failing_side(a if (c[0] == 'or') != good and not good or (c[0] == 'and' and not good and False) else (b if good else a), st, todo, fr, None, None, None, avail=True)
                    self.gain(st, x)
                    other = c[3 - i]
                    return self.settle(other if (c[0] == 'and') == good else (TRUE if c[0] == 'or' else FALSE), a, b, st, todo, fr, node)
            return c
        if self.is_avail(c):
            d = self.decided_avail(st, c)
            if d is not None:
                return TRUE if d else FALSE
            good = self.good_avail(c)
            if self.atend(c, a if good else b, st, fr, node):
                return FALSE if good else TRUE
            self.failing_side(b if good else a, st, todo, fr, None, None, None, avail=True)
            self.gain(st, c)
            return TRUE if good else FALSE
        return c

    def atend(self, c, stmts, st, fr, node):
        """A test whose side for data being left fails by itself: nothing may be left."""
        x = c[1] if c[0] == 'not' else c
        if x[0] != 'avail' or not stmts:
            return False
        cur = st.mem.get(self.cursor)
        if cur is None or cur[0] != 'cur' or cur[1] != x[1] or x[2] < cur[2] + 1:
            return False
        sf = st.copy()
        sf.avail[x[1]] = max(sf.avail.get(x[1], 0), x[2])
        self.quiet += 1
        keep = fr.fails, fr.handled, fr.statuses
        fr.fails, fr.handled, fr.statuses = [], set(fr.handled), dict(fr.statuses)
        try:
            self.run(list(stmts), sf, fr)
        except Unclear:
            return False
        finally:
            self.quiet -= 1
            fr.fails, fr.handled, fr.statuses = keep
        if sf.end is None or sf.end[0] != 'fail' or sf.mem.get(self.cursor) != cur:
            return False
        fr.fails.append((sf.end[1], dict(sf.flags), 'data being left over'))
        self.flush(st)
        st.out.append(('AtEnd' if x[2] == cur[2] + 1 else 'AtMost', x[1], cur[2], self.where(node)))
        return True

    def throughneg(self, c, sid, t):
        return neg(t) if c[3] == FALSE else t

    def resolve(self, c):
        if c[0] == 'st':
            return ('stc', ((c[1], None, None, None),), truth(c[2]), TRUE)
        if c[0] == 'not' and c[1][0] == 'st':
            return ('stc', ((c[1][1], None, None, None),), neg(truth(c[1][2])), FALSE)
        return c

    def is_avail(self, c):
        return c[0] in ('avail', 'avsym') or (c[0] == 'not' and c[1][0] in ('avail', 'avsym'))

    def good_avail(self, c):
        return c[0] != 'not'

    def decided_avail(self, st, c):
        x = c[1] if c[0] == 'not' else c
        if x[0] == 'avail' and st.avail.get(x[1], 0) >= x[2]:
            return c[0] != 'not'
        return None

    def gain(self, st, c):
        x = c[1] if c[0] == 'not' else c
        if x[0] == 'avail':
            st.avail[x[1]] = max(st.avail.get(x[1], 0), x[2])
            self.demands.append((x[1], x[2], self.curfn()))
        else:
            st.facts.append(x)
            if x[0] == 'avsym':
                st.out.append(('Need', x, self.curfn()))

    demands = []

    def failing_side(self, stmts, st, todo, fr, flags, sid, val, avail=False):
        """Does the side taken on failure end in a reported failure?  Its ways to fail are added."""
        sf = st.copy()
        sf.failing = True
        sf.flags = {}
        if sid is not None:
            for q, v in list(sf.mem.items()):
                if v[0] == 'st' and v[1] == sid:
                    sf.mem[q] = val
            sf.flags = dict(flags or {})
        self.quiet += 1
        keep = fr.fails, fr.handled, fr.statuses, fr.loop
        fr.fails, fr.handled, fr.statuses, fr.loop = [], set(fr.handled), dict(fr.statuses), None
        try:
            self.run(list(stmts) + list(todo), sf, fr)
        except Unclear:
            sf.end = None
        finally:
            self.quiet -= 1
            fr.fails, fr.handled, fr.statuses, fr.loop = keep
        e = sf.end
        if e is not None and e[0] == 'fail':
            v = e[1]
            fr.fails.append((v, dict(sf.flags), 'the data running out' if avail else e[2]))
            neg_ = v is None or (v[0] == 'k' and (v[1] < 0 or v[1] == 0))
            return bool(v is None or (v[0] == 'k'))
        if avail:
            fr.fails.append((None if e and e[0] == 'fail' else ('k', 0), dict(sf.flags), 'the data running out'))
            return False
        return False

    def switch(self, s, st, todo, fr):
        inner = s['inner']
        v = self.ev(inner[0], st, fr)
        if st.end:
            return
        body = inner[1].get('inner', []) if inner[1].get('kind') == 'CompoundStmt' else [inner[1]]
        groups = []        # (consts or None for default, stmts)
        for x in body:
            labels = []
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    labels.append(self._const({'inner': x['inner'][:1]}) if self._const({'inner': x['inner'][:1]}) is not None else self.ev(x['inner'][0], st, fr)[1])
                    x = x['inner'][1] if len(x['inner']) > 1 else {}
                else:
                    labels.append(None)
                    x = x['inner'][0] if x.get('inner') else {}
            if labels:
                groups.append((labels, [x]))
            elif groups:
                groups[-1][1].append(x)
        if v[0] == 'st':
            self.note(v, fr)
            v = v[2]
        arms, default = [], []
        for i, (labels, stmts) in enumerate(groups):
            body = list(stmts)
            for l2, s2 in groups[i + 1:]:      # fall through until a break
                body += s2
            consts = [x for x in labels if x is not None]
            if consts:
                arms.append((consts, body))
            if None in labels:
                default = body
                dlabels = consts
        self.arms(v, arms, default, st, todo, fr, s)

    def arms(self, v, arms, default, st, todo, fr, node):
        """Switch arms as a chain of tests; break ends an arm."""
        def chain(i):
            if i == len(arms):
                return [{'kind': '_arm', 'body': default}]
            return [{'kind': '_if', 'i': i}]
        live = []

        def go(i, st):
            """Runs arms i.. on st; st afterwards is the merged state (end None, ret or fail)."""
            if i == len(arms):
                self.run(default, st, fr)
                if st.end == ('break',):
                    st.end = None
                return
            consts, body = arms[i]
            c = FALSE
            for x in consts:
                e = cmpv('eq', v, k(x))
                c = e if c == FALSE else ('or', c, e) if e != FALSE else c
            d = V.decide(c, st.facts)
            if d is True:
                self.run(body, st, fr)
                if st.end == ('break',):
                    st.end = None
                return
            if d is False:
                return go(i + 1, st)
            sa, sb = st.copy(), st.copy()
            sa.facts.append(c)
            sb.facts.append(neg(c))
            self.run(body, sa, fr)
            if sa.end == ('break',):
                sa.end = None
            go(i + 1, sb)
            if sa.end and sa.end[0] in ('ret', 'cont') or sb.end and sb.end[0] in ('ret', 'cont'):
                if not (sa.end and sb.end):
                    self.join(c, sa, sb, st, todo, fr, node)
                    return
            self.join(c, sa, sb, st, [], fr, node)
        go(0, st)

    # -- loops

    def loop(self, s, st, todo, fr):
        kind = s['kind']
        inner = s['inner']
        init = cond = inc = None
        if kind == 'ForStmt':
            init, _, cond, inc, body = inner
        elif kind == 'WhileStmt':
            cond, body = inner[-2], inner[-1]
        elif kind == 'DoStmt':
            body, cond = inner[0], inner[1]
        else:
            parts = [x for x in inner if isinstance(x, dict) and x.get('kind')]
            if len(parts) < 6:
                self.unclear(s, 'range for')
            init = {'kind': 'CompoundStmt', 'inner': parts[:-4]}
            cond, inc = parts[-4], parts[-3]
            body = {'kind': 'CompoundStmt', 'inner': parts[-2:]}
        if init and init.get('kind'):
            self.run([init], st, fr)
            if st.end:
                return
        if cond is not None and not cond.get('kind'):
            cond = None
        if inc is not None and not inc.get('kind'):
            inc = None
        if kind == 'DoStmt':
            self.dowhile(s, body, cond, st, fr)
            return
        # constant trip counts are unrolled
        for turn in range(300):
            probe = st.copy()
            c = self.loopcond(cond, probe, fr)
            if c[0] != 'k' or cond is None or probe.end:
                break
            if not c[1]:
                self.loopcond(cond, st, fr)
                return
            self.loopcond(cond, st, fr)
            oldl, fr.loop = fr.loop, {'sym': False, 'breaks': []}
            self.run([body], st, fr)
            fr.loop = oldl
            if st.end == ('break',):
                st.end = None
                return
            if st.end == ('cont',):
                st.end = None
            if st.end:
                return
            if inc:
                self.ev(inc, st, fr)
        self.symloop(s, cond, inc, body, st, fr)

    def dowhile(self, s, body, cond, st, fr):
        c = None
        if self._isfalse(cond):
            oldl, fr.loop = fr.loop, {'sym': False, 'breaks': []}
            self.run([body], st, fr)
            fr.loop = oldl
            if st.end in (('break',), ('cont',)):
                st.end = None
            return
        self.unclear(s, 'do loop')

    def _isfalse(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('inner'):
            n = n['inner'][0]
        return n.get('kind') in ('IntegerLiteral', 'CXXBoolLiteralExpr') and str(n.get('value')) in ('0', 'False', 'false')

    def loopcond(self, cond, st, fr):
        if cond is None:
            return TRUE
        return self.cond(cond, st, fr)

    def symloop(self, s, cond, inc, body, st, fr):
        if self.cursor is not None:
            self.flush(st)
        changed, moved, vecs = self.probe(s, cond, inc, body, st, fr, None)
        steps = {}
        opq = {q: ('pv', self.fresh()) for q in list(changed) + [('#', v) for v in vecs]}
        changed2, moved2, vecs2 = self.probe(s, cond, inc, body, st, fr, (opq, changed, vecs, steps))
        changed |= changed2
        # what changed only at the place of the first element is not carried round
        vecs = vecs2 | set(q for q in vecs if not any(isinstance(x, tuple) and x[0] == 'e' for x in q))
        L = self.fresh()
        b = st.copy()
        if self.cursor is not None:
            self.epoch(b, 0)
        for q in changed:
            if q == self.cursor:
                continue
            v0 = st.mem[q]
            step = steps.get(q)
            b.mem[q] = self.iterated(v0, step, ('iv', L)) if step is not None else ('lv', L, repr(q))
        for q in vecs:
            v0 = self.length(st, q)
            step = steps.get(('#', q))
            b.lens[q] = self.iterated(v0, step, ('iv', L)) if step is not None else ('len', 'l%d.%s' % (L, q))
            b.gen[q] = self.fresh()
        info = {'sym': True, 'breaks': []}
        # an estimate of the count first, so that indices can be checked
        c = self.loopcond(cond, b, fr)
        if b.end:
            st.end = b.end
            return
        c = self.resolve(c)
        count = self.count(c, L, s)
        self.loops[L] = count
        if self.is_avail(c):
            # loops over what is left
            self.unclear(s, 'a loop over the rest of the data')
        if c[0] == 'stc':
            self.unclear(s, 'a loop over a status')
        # the state in which the loop is left
        out_state = b.copy()
        sa, sb = b, out_state
        sa.facts.append(c)
        sb.facts.append(neg(c))
        old, fr.loop = fr.loop, info
        self.run([body], sa, fr)
        fr.loop = old
        if sa.end == ('cont',):
            sa.end = None
        if sa.end == ('break',):
            sa.end = None
            self.unclear(s, 'loop that runs once')
        if sa.end and sa.end[0] == 'fail':
            # every iteration fails
            fr.fails.append((sa.end[1], dict(sa.flags), sa.end[2]))
            self.flush(sb)
            st.out = st.out + [('Assert', neg(c), self.where(s))] + sb.out
            sb.out, sb.end = st.out, None
            st.take(sb)
            return
        if sa.end:
            self.unclear(s, 'return out of a loop')
        if inc:
            self.ev(inc, sa, fr)
        if self.cursor is not None:
            self.flush(sa)
        # loop-carried locations must be covered
        exit_out = []
        if info['breaks']:
            if cond is not None and c != TRUE:
                self.unclear(s, 'break out of a loop with a condition')
            if len(info['breaks']) != 1:
                self.unclear(s, 'several breaks')
            bc, sb = info['breaks'][0]
            bc_ = [i for i, x in enumerate(sa.out) if x[0] == 'BreakIf']
            if len(bc_) != 1 or any(x[0] in ('B', 'Loop', 'While', 'Alt') for x in sa.out[:bc_[0]]):
                self.unclear(s, 'break after reading')
            c = neg(bc)
            sa.out = sa.out[:bc_[0]] + sa.out[bc_[0] + 1:]
            count = None
            sb = sb.copy()
            sb.end = None
        if self.cursor is not None:
            self.flush(sb)
            exit_out = [x for x in sb.out if x[0] != 'BreakIf']
        node = ('Loop', L, count, sa.out, self.where(s)) if count is not None else ('While', L, c, sa.out, exit_out, self.where(s))
        if count is not None and exit_out:
            self.unclear(s, 'loop condition reads')
        outs = st.out
        if count is not None or sa.out or exit_out:
            outs = outs + [node]
        # after the loop
        premem, preinit = set(st.mem), set(st.init)
        st.mem = dict(sa.mem)
        st.init, st.facts = sa.init, [f for f in st.facts]
        for q in changed:
            if q == self.cursor:
                continue
            step = steps.get(q)
            if step is not None and count is not None:
                st.mem[q] = self._after(q, steps, count, L, sa)
            else:
                st.mem[q] = ('lx', L, repr(q))
        for q in list(st.mem):
            if len(q) == 1 and q[0][0] == 'v' and q not in changed and q not in premem and q in preinit:
                st.mem[q] = ('lx', L, repr(q))
        lens = dict(sa.lens)
        for q in vecs:
            step = steps.get(('#', q))
            if step is not None and count is not None:
                lens[q] = self._afterlen(q, steps, count, L, sa)
            else:
                lens[q] = ('len', 'x%d.%s' % (L, q))
        st.lens = lens
        st.gen = dict(sa.gen)
        for q in vecs:
            st.gen[q] = self.fresh()
        st.avail = {}
        st.out = outs
        st.flags.update(sa.flags)
        if self.cursor is not None:
            self.epoch(st, 0)

    def _after(self, q, steps, count, L, sa):
        # value at the end of the last iteration: replace iv by count - 1 in the end-of-body value
        return replace_iv(sa.mem[q], L, sub(count, k(1)))

    def _afterlen(self, q, steps, count, L, sa):
        return replace_iv(sa.lens[q], L, sub(count, k(1)))

    def iterated(self, v0, step, n):
        d = mulstep(n, step)
        if v0[0] == 'ptr':
            loc = v0[1]
            return ('ptr', loc[:-1] + (('e', cb(add(loc[-1][1], d))),), v0[2])
        return add(v0, d)

    def probe(self, s, cond, inc, body, st, fr, opaque):
        """Run the loop once to see what it changes."""
        p = st.copy()
        if self.cursor is not None:
            self.epoch(p, 0)
        pvs = {}
        if opaque:
            opq, changed, vecs, steps = opaque
            for q in changed:
                if q == self.cursor:
                    continue
                v = opq[q]
                old = st.mem[q]
                if old[0] == 'ptr':
                    if old[1] and old[1][-1][0] == 'e':
                        v = ('ptr', old[1][:-1] + (('e', opq[q]),), old[2])
                p.mem[q] = v
            for q in vecs:
                p.lens[q] = opq[('#', q)]
        start_mem, start_len = dict(p.mem), dict(p.lens)
        for q in st.lens:
            start_len.setdefault(q, st.lens[q])
        self.quiet += 1
        nun = len(self.unclears)
        keep = fr.fails, fr.handled, fr.statuses, fr.loop
        fr.fails, fr.handled, fr.statuses = [], set(fr.handled), dict(fr.statuses)
        fr.loop = {'sym': True, 'breaks': []}
        loops = dict(self.loops)
        nd = len(self.demands)
        obl = self.obligations, self.reads
        try:
            c = self.loopcond(cond, p, fr)
            if not p.end:
                self.run([body], p, fr)
            if p.end in (('cont',), ('break',)):
                p.end = None
            if inc and not p.end:
                self.ev(inc, p, fr)
        finally:
            self.quiet -= 1
            del self.unclears[nun:]
            del self.demands[nd:]
            fr.fails, fr.handled, fr.statuses, fr.loop = keep
            self.obligations, self.reads = obl
            self.loops = loops
        changed = set(q for q in st.mem if q in start_mem and p.mem.get(q) != start_mem[q])
        vecs = set()
        for q in p.lens:
            if q not in start_len:
                if mentions_pv(q) or not self.exists(st, q):
                    continue
                start_len[q] = self.length(st.copy(), q)
            if cb(p.lens[q]) != cb(start_len[q]):
                vecs.add(q)
        vecs |= set(q for q in p.gen if q in st.lens and p.gen[q] != st.gen.get(q, 0))
        vecs = set(q for q in vecs if not mentions_pv(q))
        if opaque:
            for q in changed:
                a, b = start_mem[q], p.mem.get(q)
                if b is None:
                    continue
                if a[0] == 'ptr' and b[0] == 'ptr' and a[1][:-1] == b[1][:-1]:
                    d = sub(b[1][-1][1], a[1][-1][1])
                elif a[0] in ('pv', 'lin', 'k') and b[0] in ('pv', 'lin', 'k'):
                    d = sub(b, a)
                else:
                    continue
                if d[0] == 'k':
                    steps[q] = d[1]
            for q in vecs:
                a, b = start_len[q], p.lens.get(q, start_len[q])
                d = sub(b, a)
                if d[0] == 'k':
                    steps[('#', q)] = d[1]
        return changed, None, vecs

    def count(self, c, L, s):
        """Number of iterations of a loop whose condition on iteration iv is c."""
        iv = ('iv', L)
        if c[0] == 'not' and c[1][0] == 'cmp':
            op, x, y = {'lt': 'le', 'le': 'lt', 'eq': 'ne'}[c[1][1]], c[1][3], c[1][2]
        elif c[0] == 'cmp':
            op, x, y = c[1], c[2], c[3]
        else:
            return None
        cx, dx = V.lin(x)
        cy, dy = V.lin(y)
        d = dict(dy)
        for a, n in dx.items():
            d[a] = d.get(a, 0) - n
        const = cy - cx
        n = d.pop(iv, 0)
        if iv in [a for a in d] or any(mentions(a, iv) for a in d):
            for a in d:
                if a[0] == 'op' and a[1] == 'cast' and mentions(a, iv):
                    self.find('narrow', self.curfn(), s, 'the loop counter is narrower than what it counts to')
                    return None
            return None
        rest = unlin_pos(const, d)
        if op == 'ne':
            # 0 != rest + n*iv
            if n == -1:
                return cb(rest)
            if n == 1:
                return cb(V.mulk(rest, -1))
            return None
        if n == -1:             # iv (op) rest
            return cb(rest if op == 'lt' else add(rest, k(1)))
        return None

    # -- expressions

    def cond(self, n, st, fr):
        v = self.ev(n, st, fr)
        if v[0] == 'st':
            self.note(v, fr)
        return truth(v) if v[0] != 'st' else v

    def good(self, v):
        return v[2] if v[0] == 'st' else v

    def ev(self, n, st, fr):
        if st.end:
            return k(0)
        kind = n.get('kind')
        f = getattr(self, 'x_' + kind, None) if kind else None
        if f is None:
            self.unclear(n, 'expression %s' % kind)
        return f(n, st, fr)

    def x_first(self, n, st, fr):
        return self.ev(n['inner'][0], st, fr)

    x_ParenExpr = x_ExprWithCleanups = x_CXXBindTemporaryExpr = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_first

    def x_MaterializeTemporaryExpr(self, n, st, fr):
        v = self.ev(n['inner'][0], st, fr)
        if v[0] in ('ptr',) and (self.record(self.ty(n)) or self.isvec(self.ty(n))):
            return v
        tmp = (('v', 'tmp', self.fresh()),)
        st.mem[tmp] = v
        return ('ptr', tmp, ())

    def x_IntegerLiteral(self, n, st, fr):
        return k(int(n['value']))

    def x_CharacterLiteral(self, n, st, fr):
        return k(int(n['value']))

    def x_CXXBoolLiteralExpr(self, n, st, fr):
        return TRUE if n.get('value') in (True, 'true', 'True') else FALSE

    def x_FloatingLiteral(self, n, st, fr):
        return ('fl', str(float(n['value'])))

    def x_StringLiteral(self, n, st, fr):
        try:
            return ('str', json.loads(n['value']))
        except ValueError:
            return ('str', n['value'])

    def x_CXXNullPtrLiteralExpr(self, n, st, fr):
        return ('null',)

    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_ImplicitValueInitExpr(self, n, st, fr):
        return k(0)

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_InitListExpr(self, n, st, fr):
        tmp = (('v', 'tmp', self.fresh()),)
        self.initlist(n, tmp, st, fr)
        if self.record(self.ty(n)) or self.isvec(self.ty(n)):
            return ('ptr', tmp, ())
        return st.mem.get(tmp, k(0))

    def x_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        t = (n.get('argType') or {}).get('desugaredQualType') or (n.get('argType') or {}).get('qualType')
        if t is None and n.get('inner'):
            t = self.ty(n['inner'][0])
        it = self.intty(t or '')
        if n.get('name') == 'sizeof' and it:
            return k(it[0])
        if t and self.strip(t) == 'double':
            return k(8)
        return ('op', 'sizeof', ('str', t or '?'), k(0))

    def x_DeclRefExpr(self, n, st, fr):
        d = n.get('referencedDecl') or {}
        if d.get('kind') == 'EnumConstantDecl':
            return k(self.enums.get(d['id'], self.enums.get(d['name'], 0)))
        if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', d['id'], d.get('name'))
        if d.get('kind') in ('VarDecl', 'ParmVarDecl'):
            loc = (('v', d['id'], fr.uid),)
            t = (d.get('type') or {}).get('qualType', '')
            v = st.mem.get(loc)
            if t.rstrip().endswith('&'):
                if v is None:
                    self.unclear(n, 'reference without target')
                if v[0] in ('ptr', 'curlv', 'ite', 'rptr'):
                    return v
                # a value bound to a reference parameter
                return ('ptr', loc, ())
            if v is None and loc not in st.init and not any(q[:1] == loc for q in st.mem):
                dn = self.decls.get(d['id'])
                if dn is not None and not self.islocal(dn):
                    return self.globalvar(dn, st, fr, n)
            return ('ptr', loc, ())
        self.unclear(n, 'name %s' % d.get('name'))

    def islocal(self, dn):
        return dn.get('kind') == 'ParmVarDecl' or dn.get('_local', True) and not dn.get('_global')

    def globalvar(self, dn, st, fr, n):
        loc = (('v', dn['id'], 0),)
        if loc not in st.mem and dn.get('init') and 'const' in (dn.get('type') or {}).get('qualType', ''):
            init = [c for c in dn.get('inner', ()) if c.get('kind')]
            self.init_at(init[0], loc, self.ty(dn), st, fr)
            return ('ptr', loc, ())
        if loc in st.mem or loc in st.init:
            return ('ptr', loc, ())
        st.mem[loc] = ('op', 'global', ('str', dn.get('name', '?')), k(0))
        return ('ptr', loc, ())

    def x_CXXDefaultArgExpr(self, n, st, fr):
        self.unclear(n, 'default argument')

    def x_CXXThisExpr(self, n, st, fr):
        v = st.mem.get((('v', 'this', fr.uid),))
        if v is None:
            self.unclear(n, 'this')
        return v

    def x_MemberExpr(self, n, st, fr):
        base = n['inner'][0]
        v = self.good(self.ev(base, st, fr))
        bt = self.ty(base).rstrip('*& ')
        if st.end:
            return k(0)
        return self.member(v, n['name'], bt, n)

    def member(self, v, name, bt, n):
        if v[0] == 'ite':
            return ite(v[1], self.member(v[2], name, bt, n), self.member(v[3], name, bt, n))
        if v[0] != 'ptr':
            self.unclear(n, 'member of %s' % v[0])
        if self.union_member(bt, name):
            name = '*u'
        return ('ptr', v[1] + (('f', name),), v[2])

    def x_ArraySubscriptExpr(self, n, st, fr):
        a, b = [self.good(self.ev(x, st, fr)) for x in n['inner'][:2]]
        if a[0] == 'str' and b[0] == 'k':
            self.unclear(n, 'string index')
        return self.deref(self.padd(a, b, n, st), n, st)

    def padd(self, p, i, n, st, check=False):
        if p[0] == 'cur' or p[0] == 'end':
            return add(p, i)
        if p[0] == 'ptr' and p[1] and p[1][-1][0] == 'e':
            return ('ptr', p[1][:-1] + (('e', cb(add(p[1][-1][1], i))),), p[2])
        if i == k(0):
            return p
        if p[0] == 'op' or p[0] == 'lv':
            return ('op', 'padd', p, i)
        self.unclear(n, 'pointer arithmetic on %s' % p[0])

    def deref(self, p, n, st):
        if p[0] == 'cur':
            return ('curlv', p[1], p[2])
        if p[0] == 'ptr':
            if p[1] and p[1][-1][0] == 'e' and p[1][:-1] != ():
                vec = p[1][:-1]
                if vec in st.lens or vec in self.arrays:
                    self.bound(st, vec, p[1][-1][1], n)
            return p
        if p[0] == 'rptr':
            return p
        if p[0] == 'ite':
            return ite(p[1], self.deref(p[2], n, st), self.deref(p[3], n, st))
        if p[0] == 'end':
            self.find('overread', self.curfn(), n, 'reads relative to the end of the data')
            return ('ptr', (('v', 'bad', self.fresh()),), ())
        if p[0] == 'null':
            self.find('overread', self.curfn(), n, 'follows a null pointer')
        self.unclear(n, 'follows %s' % (p[0],))

    def x_UnaryOperator(self, n, st, fr):
        op = n['opcode']
        sub_ = n['inner'][0]
        t = self.ty(sub_)
        if op == '&':
            v = self.ev(sub_, st, fr)
            if v[0] == 'curlv':
                return ('cur', v[1], v[2])
            return v
        if op == '*':
            return self.deref(self.good(self.ev(sub_, st, fr)), n, st)
        if op in ('++', '--'):
            lv = self.ev(sub_, st, fr)
            if st.end:
                return k(0)
            old = self.good(self.load(st, lv, t, n))
            d = k(1 if op == '++' else -1)
            new = self.padd(old, d, n, st) if t.rstrip().endswith('*') else self.arith('+', old, d, t)
            self.assign_cursor(st, lv, new, t, n)
            return old if n.get('isPostfix') else lv
        v = self.good(self.ev(sub_, st, fr))
        if op == '!':
                return neg(truth(v))
        if op == '-':
            if v[0] == 'fl':
                return ('fl', str(-float(v[1])))
            return self.arith('-', k(0), v, self.ty(n))
        if op == '+':
            return v
        if op == '~':
            it = self.intty(self.ty(n)) or (4, True)
            if v[0] == 'k':
                return cast(k(~v[1]), *it)
            return ('op', '~', cb(v), k(it[0]))
        self.unclear(n, 'operator %s' % op)

    def assign_cursor(self, st, lv, new, t, n):
        """Store a pointer; moving the data cursor by an amount that is not constant takes a block."""
        if lv[0] == 'ptr' and lv[1] == self.cursor:
            old = self.pos(st)
            if new[0] == 'op' and new[1] == 'ptradd' and new[2][0] == 'cur' and new[2][1] == old[1]:
                st.mem[self.cursor] = new[2]
                self.flush(st)
                self.obligations += 1
                size = new[3]
                if not self.block_left(st, new[2], size):
                    self.find('overread', self.curfn(), n, 'moves on by %s without checking what is left' % show(size))
                st.out.append(('Block', new[2][1], new[2][2], cb(size)))
                self.epoch(st, 0)
                return
        self.store(st, lv, new, t, n)

    def block_left(self, st, cur, size):
        """Is it known that size bytes are left at cur?"""
        if st.failing:
            return True
        for f in st.facts:
            if f[0] == 'avsym' and f[1] == cur[1]:
                # (rem(e) + bc) / mult >= need ; need rem(e) - off >= size
                if cb(f[2]) == cb(size) and -f[4] >= cur[2]:
                    return True
                need = add(V.mulk(f[2], f[3]), k(-f[4]))
                if V.decide(cmpv('le', add(size, k(cur[2])), need), []):
                    return True
        return False

    def arith(self, op, a, b, t):
        t = self.strip(t)
        if t in ('double', 'float') or a[0] in ('fl', 'dbl', 'fop', 'i2f') or b[0] in ('fl', 'dbl', 'fop', 'i2f'):
            return ('fop', op, a, b)
        it = self.intty(t)
        if t.endswith('*'):
            it = None
        size, signed = it if it else (8, True)
        return binop(op, a, b, size, signed)

    def x_BinaryOperator(self, n, st, fr):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            rv = self.ev(r, st, fr)
            if st.end:
                return k(0)
            lv = self.ev(l, st, fr)
            if st.end:
                return k(0)
            self.note(rv, fr)
            self.assign_cursor(st, lv, rv, self.ty(l), n)
            return lv
        if op == ',':
            v = self.ev(l, st, fr)
            self.note(v, fr)
            return self.ev(r, st, fr)
        if op in ('&&', '||'):
            return self.logic(op, l, r, st, fr, n)
        a = self.ev(l, st, fr)
        if st.end:
            return k(0)
        b = self.ev(r, st, fr)
        if st.end:
            return k(0)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            cmp_ = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[op]
            for v in (a, b):
                self.note(v, fr)
            if a[0] == 'st' and self.byteish(a[2]):
                a = a[2]
            if b[0] == 'st' and self.byteish(b[2]):
                b = b[2]
            if a[0] in ('fl', 'dbl', 'fop') or b[0] in ('fl', 'dbl', 'fop'):
                return ('cmp', cmp_, a, b)
            return cmpv(cmp_, a, b)
        self.note(a, fr)
        self.note(b, fr)
        a, b = self.good(a), self.good(b)
        t = self.ty(n)
        if op in ('+', '-') and (self.ty(l).rstrip().endswith('*') or self.ty(r).rstrip().endswith('*')):
            if self.ty(l).rstrip().endswith('*') and self.ty(r).rstrip().endswith('*'):
                if a[0] in ('cur', 'end') and b[0] in ('cur', 'end'):
                    return sub(a, b)
                if a[0] == 'ptr' and b[0] == 'ptr' and a[1][:-1] == b[1][:-1]:
                    return sub(a[1][-1][1], b[1][-1][1])
                self.unclear(n, 'pointer difference')
            if self.ty(r).rstrip().endswith('*'):
                a, b = b, a
            return self.padd(a, b if op == '+' else V.mulk(b, -1), n, st)
        return self.arith(op, a, b, t)

    def byteish(self, v):
        """A value read from the data (its failure shows elsewhere, not in the comparison)."""
        return v[0] in ('bv',) or (v[0] == 'ite' and self.byteish(v[2]) and self.byteish(v[3]))

    def x_CompoundAssignOperator(self, n, st, fr):
        op = n['opcode'][:-1]
        l, r = n['inner']
        rv = self.ev(r, st, fr)
        if st.end:
            return k(0)
        self.note(rv, fr)
        lv = self.ev(l, st, fr)
        rv = self.good(rv)
        t = self.ty(l)
        old = self.good(self.load(st, lv, t, n))
        if t.rstrip().endswith('*'):
            new = self.padd(old, rv if op == '+' else V.mulk(rv, -1), n, st)
        else:
            ct = n.get('computeResultType') or {}
            ct = ct.get('desugaredQualType') or ct.get('qualType') or t
            cit, it = self.intty(ct), self.intty(t)
            a = cast(old, *cit) if cit else old
            new = self.arith(op, a, rv, ct)
            if it:
                new = cast(new, *it)
        self.assign_cursor(st, lv, new, t, n)
        return lv

    def logic(self, op, l, r, st, fr, n):
        a = self.cond(l, st, fr)
        if st.end:
            return k(0)
        a = self.resolve(a)
        d = V.decide(a, st.facts)
        if d is not None:
            if (op == '&&') != d:
                return TRUE if d else FALSE
            return self.cond(r, st, fr)
        if a[0] == 'stc':
            goodv = V.decide(a[2], st.facts)
            if goodv is not None and goodv == (op == '&&'):
                b = self.resolve(self.cond(r, st, fr))
                if b[0] == 'stc':
                    return ('stc', a[1] + b[1], b[2], a[3])
                return ('stc', a[1], b, a[3])
            self.unclear(n, 'status in a condition')
        if self.is_avail(a):
            s2 = st.copy()
            self.gain(s2, a)
            b = self.cond(r, s2, fr)
            x = 'and' if op == '&&' else 'or'
            if b[0] != 'k' and s2.mem == st.mem:
                return (x, a, b)
            self.unclear(n, 'condition with effects')
        s2 = st.copy()
        s2.facts.append(a if op == '&&' else neg(a))
        b = self.cond(r, s2, fr)
        if s2.end:
            self.unclear(n, 'condition that fails')
        if s2.mem == st.mem and not s2.out:
            if b[0] == 'k':
                return a if bool(b[1]) == (op == '&&') else (FALSE if op == '&&' else TRUE)
            return ('and' if op == '&&' else 'or', a, b)
        s1 = st.copy()
        base = st.out
        if op == '&&':
            self.merge(st, None, a, s2, s1)
            return V.cite(a, b, FALSE)
        self.merge(st, None, a, s1, s2)
        return V.cite(a, TRUE, b)

    def x_ConditionalOperator(self, n, st, fr):
        c, a, b = n['inner']
        cv = self.cond(c, st, fr)
        if st.end:
            return k(0)
        if cv[0] == 'st':
            cv = truth(cv[2])
        d = V.decide(cv, st.facts)
        if d is not None:
            return self.ev(a if d else b, st, fr)
        if self.is_avail(cv):
            dd = self.decided_avail(st, cv)
            good = self.good_avail(cv) if dd is None else dd
            if dd is None:
                fr.fails.append((k(0), {}, 'the data running out'))
                self.gain(st, cv)
            return self.ev(a if good else b, st, fr)
        sa, sb = st.copy(), st.copy()
        sa.facts.append(cv)
        sb.facts.append(neg(cv))
        va, vb = self.ev(a, sa, fr), self.ev(b, sb, fr)
        if sa.end or sb.end:
            self.unclear(n, 'conditional expression that fails')
        self.merge(st, None, cv, sa, sb)
        return ite(cv, self.good(va), self.good(vb))

    def x_ImplicitCastExpr(self, n, st, fr):
        ck = n.get('castKind')
        sub_ = n['inner'][0]
        t = self.ty(n)
        v = self.ev(sub_, st, fr)
        if st.end:
            return k(0)
        if ck == 'LValueToRValue':
            if v[0] in ('ptr', 'curlv', 'rptr', 'ite'):
                return self.load(st, v, self.ty(sub_), n)
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr', 'UncheckedDerivedToBase'):
            return v
        if ck == 'ArrayToPointerDecay':
            if v[0] == 'ptr':
                return ('ptr', v[1] + (('e', k(0)),), v[2])
            return v
        if ck == 'IntegralCast':
            it = self.intty(t)
            if it is None:
                self.unclear(n, 'cast to %s' % t)
            if v[0] in V.CONDS:
                return v
            return cast(v, *it)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return truth(v) if v[0] != 'st' else v
        if ck == 'NullToPointer':
            return ('null',)
        if ck in ('IntegralToFloating',):
            g = self.good(v)
            self.note(v, fr)
            return ('i2f', cb(g)) if g[0] != 'k' else ('fl', str(float(g[1])))
        if ck in ('FloatingCast',):
            return v if self.strip(t) == 'double' else ('fop', 'cast', v, ('str', self.strip(t)))
        if ck == 'FloatingToIntegral':
            return ('op', 'f2i', v, k(0))
        if ck in ('BitCast', 'LValueBitCast'):
            to = self.strip(t).rstrip('*&').strip()
            if v[0] == 'ptr' and ck == 'BitCast' and to != 'void':
                frm = self.strip(self.ty(sub_)).rstrip('*&').strip()
                if self.intty(frm) and self.intty(to) and self.intty(frm)[0] == self.intty(to)[0]:
                    return v
                return ('rptr', to, v)
            if v[0] == 'cur' and to not in ('uint8_t', 'unsigned char', 'char', 'void', 'int8_t', 'signed char'):
                return ('rptr', to, v)
            if v[0] == 'rptr' and to == 'void':
                return v[2]
            return v
        if ck == 'ToVoid':
            self.note(v, fr)
            return ('void',)
        self.unclear(n, 'cast %s' % ck)

    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = x_CXXFunctionalCastExpr = x_ImplicitCastExpr

    def x_CXXTemporaryObjectExpr(self, n, st, fr):
        tmp = (('v', 'tmp', self.fresh()),)
        self.init_at(n, tmp, self.ty(n), st, fr)
        return ('ptr', tmp, ())

    def x_CXXConstructExpr(self, n, st, fr):
        t = self.ty(n)
        args = [a for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        if len(args) == 1:
            v = self.ev(args[0], st, fr)
            if v[0] == 'ptr':
                return v
        tmp = (('v', 'tmp', self.fresh()),)
        self.init_at(n, tmp, t, st, fr)
        return ('ptr', tmp, ())

    def x_CXXThrowExpr(self, n, st, fr):
        st.end = ('fail', None, 'throw')
        return k(0)

    # -- calls

    def x_CallExpr(self, n, st, fr):
        inner = n['inner']
        f = self.ev(inner[0], st, fr)
        if f[0] != 'fn':
            self.unclear(n, 'call of a value')
        fn = self.fns.get(f[1])
        if fn is None or '_body' not in fn:
            alt = self.byname.get(f[2])
            if fn is None or alt is not None:
                fn = alt
        args = []
        for i, a in enumerate(inner[1:]):
            if a.get('kind') == 'CXXDefaultArgExpr':
                p = fn['_params'][i] if fn is not None and i < len(fn.get('_params', ())) else {}
                d = [c for c in p.get('inner', ()) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Attr')]
                if not d:
                    self.unclear(n, 'default argument')
                a = d[0]
            v = self.ev(a, st, fr)
            if st.end:
                return k(0)
            self.note(v, fr)
            args.append(self.good(v))
        if fn is not None and '_body' in fn:
            v = self.call(st, fn, args, n)
            return self.note(v, fr)
        return self.builtin(f[2], args, n, st, fr, inner[1:])

    def builtin(self, name, args, n, st, fr, nodes):
        if name in ('fprintf', 'printf', 'snprintf', 'fputs'):
            return k(0)
        if name in ('pow', 'ldexp', 'floor', 'fabs', 'sqrt', 'round', 'exp'):
            return ('fop', name) + tuple(args)
        if name in ('min', 'max') and len(args) == 2:
            vs = [self.load(st, a, self.ty(x), n) if a[0] == 'ptr' else a for a, x in zip(args, nodes)]
            c = cmpv('lt', vs[1], vs[0])
            return ite(c, vs[1], vs[0]) if name == 'min' else ite(c, vs[0], vs[1])
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2], n)
            return args[0]
        if name == 'memset':
            p = args[0]
            if p[0] == 'rptr':
                p = p[2]
            if p[0] == 'ptr' and args[1] == k(0):
                for tab in (st.mem,):
                    for q in [q for q in tab if q[:len(p[1])] == p[1]]:
                        del tab[q]
                st.init[p[1]] = 'zero'
                return p
        if name == 'abort':
            st.end = ('fail', None, 'abort')
            return k(0)
        self.unclear(n, 'call of %s' % name)

    def memcpy(self, st, dst, src, size, n):
        if dst[0] == 'rptr':
            dst = dst[2]
        if src[0] == 'rptr':
            src = src[2]
        if src[0] == 'cur' and dst[0] == 'ptr':
            if size[0] == 'k':
                slots = []
                for i in range(size[1]):
                    slots.append(self.byte(st, src[1], src[2] + i, n))
                if dst[1][-1][0] == 'e':
                    base = dst[1][:-1]
                    i0 = dst[1][-1][1]
                    for i, b in enumerate(slots):
                        p = self.elem(st, base, add(i0, k(i)), n)
                        st.mem[p[1]] = b
                else:
                    st.mem[dst[1]] = ('bv', tuple(b[1][0] for b in slots), False)
                return
            self.obligations += 1
            if not self.block_left(st, src, size):
                self.find('overread', self.curfn(), n, 'copies %s bytes without checking what is left' % show(size))
            if dst[1][-1] == ('e', k(0)):
                base = dst[1][:-1]
                if base in st.lens and cb(self.length(st, base)) != cb(size):
                    self.find('bounds', self.lname(base), n, 'copies more than fits into %s' % self.lname(base))
                st.mem[base + (('blk',),)] = ('blk', src[1], src[2], cb(size))
                return
        if src[0] == 'ptr' and dst[0] == 'ptr' and size[0] == 'k':
            v = self.load(st, src, None, n)
            st.mem[dst[1]] = v
            return
        self.unclear(n, 'memcpy')

    def assign(self, st, vec, a, b, n):
        """vector filled from a range of the data"""
        if a[0] == 'cur' and (b[0] == 'cur' or (b[0] == 'op' and b[1] == 'ptradd' and b[2] == a)):
            size = sub(b, a) if b[0] == 'cur' else b[3]
            st.lens[vec[1]] = size
            self.grow(st, vec[1])
            if size[0] == 'k':
                for i in range(size[1]):
                    st.mem[vec[1] + (('e', k(i)),)] = self.byte(st, a[1], a[2] + i, n)
                return
            self.obligations += 1
            if not self.block_left(st, a, size):
                self.find('overread', self.curfn(), n, 'copies %s bytes without checking what is left' % show(size))
            st.mem[vec[1] + (('blk',),)] = ('blk', a[1], a[2], cb(size))
            st.init[vec[1] + (('e', '*'),)] = 'zero'
            return
        self.unclear(n, 'assign')

    def x_CXXOperatorCallExpr(self, n, st, fr):
        inner = n['inner']
        f = self.ev(inner[0], st, fr)
        name = f[2] if f[0] == 'fn' else '?'
        a = self.good(self.ev(inner[1], st, fr))
        if st.end:
            return k(0)
        t = self.ty(inner[1])
        if name == 'operator[]' and self.isvec(t):
            i = self.ev(inner[2], st, fr)
            self.note(i, fr)
            if a[0] == 'ite':
                self.unclear(n, 'undecided vector')
            self.live(st, a, n)
            p = self.elem(st, a[1], self.good(i), n)
            return p
        if name == 'operator=':
            b = self.good(self.ev(inner[2], st, fr))
            if a[0] == 'ptr' and b[0] == 'ptr':
                self.live(st, a, n)
                self.copy_tree(st, b[1], a[1], self.isvec(t))
                return a
        fn = self.fns.get(f[1]) if f[0] == 'fn' else None
        if fn is not None and '_body' in fn:
            args = [a] + [self.good(self.ev(x, st, fr)) for x in inner[2:]]
            return self.note(self.call(st, fn, args, n), fr)
        self.unclear(n, 'operator %s' % name)

    def resize(self, st, vec, size, n):
        loc = vec[1]
        old = self.length(st, loc)
        size = cb(size)
        self.alloc(st, loc, size, n)
        self.grow(st, loc)
        st.lens[loc] = size
        # elements that come into being are value initialised
        if old[0] == 'k' and size[0] == 'k':
            for i in range(old[1], size[1]):
                st.init[loc + (('e', k(i)),)] = 'zero'
            for i in range(size[1], min(old[1], size[1] + 64)):
                for q in [q for q in st.mem if q[:len(loc) + 1] == loc + (('e', k(i)),)]:
                    del st.mem[q]
        else:
            d = sub(size, old)
            if d[0] == 'k' and 0 < d[1] <= 64:
                for i in range(d[1]):
                    st.init[loc + (('e', cb(add(old, k(i)))),)] = 'zero'
            else:
                st.init[loc + (('e', '*'),)] = 'zero'
        d = sub(size, old)
        if d[0] == 'k' and 0 < d[1] <= 8 and old != k(0) or (d == k(1)):
            for i in range(d[1]):
                st.out.append(('Append', loc, loc + (('e', cb(add(old, k(i)))),), self.where(n)))
        else:
            st.out.append(('Resize', loc, size, self.where(n)))

    def alloc(self, st, loc, size, n):
        """A size taken from the data must be known to be backed by data."""
        self.obligations += 1
        c, d = V.lin(size)
        for a, x in d.items():
            hi = V.krange(a)[1]
            if hi is not None and hi <= 0xffff:
                continue
            if a[0] in ('len', 'iv'):
                continue
            if not self.backed(st, a):
                self.find('unbacked', '%s %s' % (self.curfn(), self.lname(loc)), n,
                          'makes room for %s elements without checking that the data can hold them' % show(size))

    def backed(self, st, size):
        for f in st.facts:
            if f[0] == 'avsym':
                fc, fd = V.lin(f[2])
                if size in fd or cb(size) in fd:
                    return True
            g = f
            if g[0] == 'cmp' and g[1] == 'lt' and g[2] == size and g[3][0] == 'k' and g[3][1] <= 1 << 20:
                return True
        return False

    def x_CXXMemberCallExpr(self, n, st, fr):
        me = n['inner'][0]
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me.get('kind') != 'MemberExpr':
            self.unclear(n, 'member call')
        base = me['inner'][0]
        bt = self.ty(base)
        obj = self.good(self.ev(base, st, fr))
        if st.end:
            return k(0)
        args = []
        for a in n['inner'][1:]:
            if a.get('kind') == 'CXXDefaultArgExpr':
                continue
            v = self.ev(a, st, fr)
            if st.end:
                return k(0)
            self.note(v, fr)
            args.append(self.good(v))
        name = me['name']
        if self.isvec(bt):
            if obj[0] != 'ptr':
                self.unclear(n, 'undecided vector')
            self.live(st, obj, n)
            return self.vector(st, obj, name, args, n, bt)
        fn = self.fns.get(me.get('referencedMemberDecl'))
        if fn is not None and '_body' not in fn:
            fn = self.byname.get(name)
        if fn is not None and '_body' in fn:
            return self.note(self.method(st, fn, obj, args, n), fr)
        self.unclear(n, 'call of %s' % name)

    def method(self, st, fn, obj, args, n):
        # frame uid is known only inside call: bind this through the next uid
        uid = self.n + 1
        st.mem[(('v', 'this', uid),)] = obj
        return self.call(st, fn, args, n)

    def emptyvecs(self, st, e, t, src):
        """The vectors inside a new element are as long as those of what it is a copy of."""
        for name, ft, tag in self.records.get(self.record(t) or '', ()):
            q = e + (('f', name),)
            s = None if src is None else src + (('f', name),)
            if self.isvec(ft):
                if q not in st.lens:
                    st.lens[q] = k(0) if s is None else self.length(st, s)
            elif self.record(ft):
                self.emptyvecs(st, q, ft, s)

    def vector(self, st, vec, name, args, n, t):
        loc = vec[1]
        if name == 'size':
            return self.length(st, loc)
        if name == 'empty':
            return cmpv('eq', self.length(st, loc), k(0))
        if name in ('capacity', 'max_size'):
            return ('op', name, ('str', repr(loc)), k(0))
        if name == 'reserve':
            self.alloc(st, loc, cb(args[0]), n)
            self.grow(st, loc)
            return ('void',)
        if name == 'resize':
            self.resize(st, vec, args[0], n)
            return ('void',)
        if name in ('push_back', 'emplace_back'):
            idx = cb(self.length(st, loc))
            e = loc + (('e', idx),)
            for tab in (st.mem, st.lens, st.init):
                for q in [q for q in tab if q[:len(e)] == e]:
                    del tab[q]
            if args:
                et = self.vecof(t) or ''
                v = args[0]
                if v[0] == 'ptr' and (self.record(et) or self.isvec(et)):
                    self.copy_tree(st, v[1], e)
                elif v[0] == 'ptr' and not et.endswith('*'):
                    st.mem[e] = self.load(st, v, et, n)
                else:
                    st.mem[e] = self.view(v, et, n)
            else:
                st.init[e] = 'zero'
            st.init.setdefault(e, 'zero')
            self.emptyvecs(st, e, self.vecof(t) or '', args[0][1] if args and args[0][0] == 'ptr' else None)
            self.grow(st, loc)
            st.lens[loc] = add(idx, k(1))
            st.out.append(('Append', loc, e, self.where(n)))
            return ('void',)
        if name in ('back', 'front'):
            i = sub(self.length(st, loc), k(1)) if name == 'back' else k(0)
            return self.elem(st, loc, i, n)
        if name == 'at':
            return self.elem(st, loc, args[0], n, False)
        if name == 'data' or name == 'begin':
            return ('ptr', loc + (('e', k(0)),), ((loc, st.gen.get(loc, 0)),))
        if name == 'end':
            return ('ptr', loc + (('e', cb(self.length(st, loc))),), ((loc, st.gen.get(loc, 0)),))
        if name == 'clear':
            st.lens[loc] = k(0)
            st.out.append(('Clear', loc, self.where(n)))
            return ('void',)
        if name == 'assign' and args and args[0][0] == 'cur':
            self.assign(st, vec, args[0], args[1], n)
            return ('void',)
        if name == 'insert' and len(args) == 3 and args[1][0] == 'cur' and self.length(st, loc) == k(0):
            self.assign(st, vec, args[1], args[2], n)
            return ('void',)
        if name == 'swap' and args[0][0] == 'ptr':
            self.unclear(n, 'swap')
        self.unclear(n, 'vector %s' % name)


def mentions_pv(v):
    if not isinstance(v, tuple):
        return False
    return (len(v) > 1 and v[0] == 'pv') or any(mentions_pv(x) for x in v)


def distinct(a, b):
    """Two indices that cannot be the same element."""
    if a == '*' or b == '*':
        return False
    d = sub(a, b)
    if d[0] == 'k':
        return d[1] != 0
    for x in (d, sub(b, a)):
        c, at = V.lin(x)
        if c > 0 and all(n > 0 and y[0] in ('iv', 'len') for y, n in at.items()):
            return True
    return False


def firstb(out):
    for i, x in enumerate(out):
        if x[0] == 'B':
            return i
        if x[0] in ('Alt', 'Loop', 'While', 'Block'):
            return None
    return None


def mulstep(n, step):
    return V.mulk(n, step)


def unlin_pos(c, d):
    return V.unlin(c, d)


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v if isinstance(y, tuple))


def replace_iv(v, L, n):
    """v with the iteration number of loop L replaced by n."""
    if v == ('iv', L):
        return n
    if v[0] == 'lin':
        d = dict(v[2])
        x = d.pop(('iv', L), 0)
        r = V.unlin(v[1], d)
        return add(r, V.mulk(n, x)) if x else v
    if v[0] == 'ptr' and v[1] and v[1][-1][0] == 'e':
        return ('ptr', v[1][:-1] + (('e', cb(replace_iv(v[1][-1][1], L, n))),), v[2])
    if v[0] in ('op', 'ite', 'cmp') and mentions(v, ('iv', L)):
        return ('lx', L, repr(v))
    return v


def show(v):
    v = cb(v)
    if v[0] == 'k':
        return str(v[1])
    if v[0] == 'bv':
        return '<%d byte %s value of the data>' % (len(v[1]), 'signed' if v[2] else 'unsigned')
    if v[0] == 'iv':
        return 'i'
    if v[0] == 'lin':
        s = ' + '.join(('%d*' % n if n != 1 else '') + show(a) for a, n in v[2])
        return s + (' + %d' % v[1] if v[1] > 0 else ' - %d' % -v[1] if v[1] < 0 else '')
    if v[0] == 'len':
        return 'size'
    if v[0] == 'op':
        return '%s(%s)' % (v[1], ', '.join(show(x) for x in v[2:] if isinstance(x, tuple)))
    return v[0]
