"""Abstract interpreter of the Cython half of the compiled reader.

Takes the entry function of each kind, hands its buffer to the C++ half (cpp.Machine) and follows what
comes back into the Python object: which keys get which values under which conditions, and which failures
end in an exception."""
import json
import os
import subprocess

from . import vals as V, cpp
from .cpp import Unclear, Broken
from .vals import k

DUMP = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'dumpcy.py')
PYTHONS = ('/opt/venv-ext/bin/python', '/usr/bin/python3', '/opt/veriftools/pyvenv/bin/python', 'python3')


def parse(path):
    err = ''
    for py in PYTHONS:
        try:
            p = subprocess.run([py, DUMP, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        except (OSError, subprocess.TimeoutExpired) as e:
            err = str(e)
            continue
        if p.returncode == 0:
            return json.loads(p.stdout.decode('utf-8'))
        err = p.stderr.decode('utf-8', 'replace')[-300:]
    raise Broken('no Cython parser reads %s: %s' % (path, err))


CINT = {'uint8_t': (1, False), 'int8_t': (1, True), 'uint16_t': (2, False), 'int16_t': (2, True), 'uint32_t': (4, False),
        'int32_t': (4, True), 'uint64_t': (8, False), 'int64_t': (8, True), 'int': (4, True), 'size_t': (8, False),
        'short': (2, True), 'long': (8, True), 'char': (1, True), 'unsigned int': (4, False), 'Py_ssize_t': (8, True), 'ssize_t': (8, True),
        'unsigned char': (1, False), 'long long': (8, True), 'bint': (4, True)}


def tname(bt, decl=None):
    """C type of a declaration: a string; pointers end in '*'."""
    s = '?'
    if bt is None:
        s = 'object'
    elif bt['_'] == 'CSimpleBaseTypeNode':
        s = bt.get('name') or 'object'
        if s in ('char', 'int', 'short', 'long') and bt.get('is_basic_c_type'):
            lg = bt.get('longness') or 0
            if s == 'int' and lg:
                s = 'long' if lg == 1 else 'long long' if lg > 1 else 'short'
            if bt.get('signed') == 0:
                s = 'unsigned ' + s
    elif bt['_'] == 'CConstTypeNode' or bt['_'] == 'CConstOrVolatileTypeNode':
        s = tname(bt['base_type'])
    elif bt['_'] == 'TemplatedTypeNode':
        a = bt['positional_args']
        s = '%s[%s]' % (tname(bt['base_type_node']), ','.join(x.get('name', tname(x) if x.get('_', '').endswith('TypeNode') else '?') for x in a))
    elif bt['_'] == 'MemoryViewSliceTypeNode':
        s = 'memview'
    d = decl
    while d is not None:
        if d['_'] == 'CPtrDeclaratorNode':
            s += '*'
        if d['_'] == 'CReferenceDeclaratorNode':
            s += '&'
        if d['_'] == 'CArrayDeclaratorNode':
            s += '[]'
        d = d.get('base')
    return s


def dname(decl):
    d = decl
    while d is not None and 'name' not in d:
        d = d.get('base')
    return d.get('name') if d else None


class Scope(object):
    def __init__(self):
        self.vars, self.types = {}, {}


class Dict(object):
    def __init__(self, cls):
        self.cls, self.stores = cls, []           # (key, value, guards)


class List(object):
    def __init__(self, kind='list'):
        self.kind, self.items = kind, []          # (index, value, guards); index 'end'


class Obj(object):
    def __init__(self, cls, args):
        self.cls, self.args, self.attrs, self.calls = cls, args, [], []


class Unit(object):
    def __init__(self, path):
        self.path = path
        self.tree = parse(path)
        self.funcs, self.structs, self.enums, self.externs, self.readers = {}, {}, set(), {}, None
        self.classes = {}
        self.consts = {}
        self.scan(self.tree)

    def stats(self, n):
        if n is None:
            return []
        if isinstance(n, list):
            return n
        if n['_'] == 'StatListNode':
            r = []
            for s in n['stats']:
                r += self.stats(s)
            return r
        return [n]

    def scan(self, n, extern=False):
        for s in self.stats(n):
            kd = s['_']
            if kd == 'CDefExternNode':
                self.scan(s['body'], True)
            elif kd == 'CFuncDefNode':
                self.funcs[dname(s['declarator'])] = s
            elif kd == 'DefNode':
                self.funcs[s['name']] = s
            elif kd == 'CStructOrUnionDefNode':
                f = {}
                for a in s.get('attributes') or ():
                    for d in a['declarators']:
                        f[dname(d)] = tname(a['base_type'], d)
                self.structs[s['name']] = (s.get('kind'), f)
            elif kd == 'CEnumDefNode':
                self.enums.add(s.get('name'))
                for it in s['items']:
                    self.consts[it['name']] = None
            elif kd == 'CVarDefNode' and extern:
                for d in s['declarators']:
                    e = d
                    while e is not None and e['_'] != 'CFuncDeclaratorNode':
                        e = e.get('base')
                    if e is not None:
                        self.externs[dname(d)] = [tname(a['base_type'], a['declarator']) for a in e['args']]
            elif kd == 'CClassDefNode':
                self.classes[s.get('class_name')] = s
            elif kd == 'PyClassDefNode':
                self.classes[s.get('name')] = s
            elif kd == 'SingleAssignmentNode' and s['lhs']['_'] == 'NameNode' and s['lhs']['name'] == 'READERS':
                if s['rhs']['_'] != 'DictNode':
                    raise Unclear('READERS is not written as a dict')
                self.readers = {}
                for it in s['rhs']['key_value_pairs']:
                    key, val = it['key'], it['value']
                    if key['_'] not in ('BytesNode', 'StringNode') or val['_'] != 'NameNode':
                        raise Unclear('an entry of READERS')
                    b = key['value']
                    self.readers[b['bytes'] if isinstance(b, dict) else b] = val['name']


class Fail(object):
    """A way for the C++ side to fail."""
    def __init__(self, where, val, flags, reason, sid):
        self.where, self.val, self.flags, self.reason, self.sid = where, val, flags, reason, sid
        self.reported = False


class Entry(object):
    """One run of an entry function."""

    def __init__(self, unit, machine, name):
        self.u, self.m, self.name = unit, machine, name
        self.findings = []                # (rule, key, line, text)
        self.fails = []
        self.result = []                  # dicts given to the object, (Dict, guards)
        self.items = []                   # object_instance[key] = value
        self.left_ok = None
        self.checked_left = False
        self.swallow = set()
        self.handed = False
        self.used = set()
        self.lines = 0
        self.obl = 0
        self.refok = set()                # references whose validity is tested

    def find(self, rule, key, node, text):
        x = (rule, key, 'src/avb/_ext.pyx:%s' % node.get('line', '?'), text)
        if x not in self.findings:
            self.findings.append(x)

    def unclear(self, node, text):
        raise Unclear('src/avb/_ext.pyx:%s: %s' % (node.get('line', '?'), text))

    # -- running

    def run(self):
        m = self.m
        m.reset()
        m.status, m.demands, m.arrays = {}, [], {}
        st = self.st = cpp.St()
        st.done = (0, 0)
        m.buf = m.cursor = None
        self.elements_cache = None
        f = self.u.funcs[self.name]
        sc = Scope()
        names = [dname(a['declarator']) for a in f['args']]
        if len(names) != 3:
            self.unclear(f, 'entry function with %d arguments' % len(names))
        sc.vars[names[0]] = ('root',)
        sc.vars[names[1]] = ('object',)
        sc.vars[names[2]] = ('data',)
        for n_, a in zip(names, f['args']):
            sc.types[n_] = tname(a['base_type'], a['declarator'])
        self.guards = []
        end = self.block(f['body'], sc)
        if end == 'raise':
            self.unclear(f, 'always raises')
        return self

    def block(self, n, sc):
        """'fall', 'raise', 'return' (then self.retval)."""
        todo = list(self.u.stats(n))
        while todo:
            s = todo.pop(0)
            self.lines += 1
            if s['_'] == 'IfStatNode' and not s.get('else_clause') and todo and len(s['if_clauses']) == 1:
                b = self.u.stats(s['if_clauses'][0]['body'])
                if b and b[-1]['_'] == 'ReturnStatNode':
                    s = dict(s, else_clause={'_': 'StatListNode', 'stats': todo, 'line': s.get('line')})
                    todo = []
            e = getattr(self, 's_' + s['_'], None)
            if e is None:
                self.unclear(s, 'statement %s' % s['_'])
            r = e(s, sc)
            if r in ('raise', 'return'):
                return r
        return 'fall'

    def s_PassStatNode(self, s, sc):
        pass

    def s_ExprStatNode(self, s, sc):
        self.ev(s['expr'], sc)

    def s_CVarDefNode(self, s, sc):
        for d in s['declarators']:
            t = tname(s['base_type'], d)
            nm = dname(d)
            sc.types[nm] = t
            base = t.split('[')[0]
            if t.endswith('*') or t in CINT or t in ('object', 'dict', 'list', 'bytes', 'str', 'tuple', 'bytearray', 'double', 'float', 'memview') \
                    or t in self.u.enums:
                if nm not in sc.vars:
                    sc.vars[nm] = ('unset', nm)
            elif t in self.u.structs or base == 'vector':
                loc = (('py', nm if (('py', nm),) not in self.st.init and (('py', nm),) not in self.st.lens else '%s %d' % (nm, self.m.fresh())),)
                if base == 'vector':
                    self.st.lens[loc] = k(0)
                else:
                    self.st.init[loc] = 'uninit'
                    # members with constructors start empty
                    for f, ft in self.u.structs[t][1].items():
                        if ft.split('[')[0] == 'vector':
                            self.st.lens[loc + (('f', f),)] = k(0)
                sc.vars[nm] = ('ref', loc, t)
                if t == 'Buffer' or 'Buffer' in t:
                    self.m.buf = loc
            else:
                self.unclear(s, 'variable of type %s' % t)
            if d.get('default') is not None:
                sc.vars[nm] = self.conv(self.ev(d['default'], sc), t)
            elif d.get('base') and d['base'].get('default') is not None:
                sc.vars[nm] = self.ev(d['base']['default'], sc)

    def conv(self, v, t):
        if v[0] == 'nat' and t in CINT and t != 'bint':
            return ('nat', self.cast(v[1], t), t)
        if v[0] == 'ite':
            return ('ite', v[1], self.conv(v[2], t), self.conv(v[3], t))
        return v

    def cast(self, v, t):
        if t in CINT:
            return V.cast(v, *CINT[t])
        return v

    def s_SingleAssignmentNode(self, s, sc):
        self.assign(s['lhs'], self.ev(s['rhs'], sc), sc, s)

    def s_CascadedAssignmentNode(self, s, sc):
        v = self.ev(s['rhs'], sc)
        for l in s['lhs_list']:
            self.assign(l, v, sc, s)

    def s_InPlaceAssignmentNode(self, s, sc):
        a, b = self.ev(s['lhs'], sc), self.ev(s['rhs'], sc)
        if a[0] == 'nat' and b[0] == 'nat':
            self.assign(s['lhs'], ('nat', V.binop(s['operator'], a[1], b[1]), a[2]), sc, s)
            return
        self.unclear(s, 'in place operator')

    def assign(self, l, v, sc, s):
        if l['_'] == 'NameNode':
            t = sc.types.get(l['name'])
            if t in self.u.structs and v[0] == 'ref':
                sc.vars[l['name']] = v
                return
            sc.vars[l['name']] = self.conv(v, t) if t else v
            return
        if l['_'] == 'AttributeNode':
            o = self.ev(l['obj'], sc)
            if o[0] == 'ref':
                loc = o[1] + (('f', l['attribute']),)
                if self.m.buf is not None and o[1] == self.m.buf:
                    if v[0] == 'nat' and v[1][0] == 'cur' and l['attribute'] != 'root' and self.m.cursor is None:
                        self.m.cursor = loc
                        self.st.done = (v[1][1], v[1][2])
                if v[0] == 'nat':
                    self.st.mem[loc] = v[1]
                elif v[0] in ('str', 'bytes'):
                    self.st.mem[loc] = ('str', v[1])
                else:
                    self.unclear(s, 'stores %s in a structure' % v[0])
                return
            if o[0] == 'object':
                if l['attribute'] == 'property_data':
                    self.result.append((v, list(self.guards)))
                    self.handed = True
                return
            if o[0] == 'obj':
                o[1].attrs.append((l['attribute'], v, list(self.guards)))
                return
            self.unclear(s, 'stores an attribute of %s' % o[0])
        if l['_'] == 'IndexNode':
            o = self.ev(l['base'], sc)
            key = self.ev(l['index'], sc)
            if o[0] == 'dict':
                o[1].stores.append((key, v, list(self.guards)))
                return
            if o[0] == 'object':
                self.items.append((key, v, list(self.guards)))
                self.handed = True
                return
        if l['_'] == 'TupleNode' and v[0] == 'list':
            for a, (i, b, g) in zip(l['args'], v[1].items):
                self.assign(a, b, sc, s)
            return
        self.unclear(s, 'assignment to %s' % l['_'])

    def s_GILStatNode(self, s, sc):
        return self.block(s['body'], sc)

    def s_RaiseStatNode(self, s, sc):
        return 'raise'

    def s_ReturnStatNode(self, s, sc):
        self.retval = self.ev(s['value'], sc) if s.get('value') else ('none',)
        return 'return'

    def s_AssertStatNode(self, s, sc):
        c = self.truth(self.ev(s.get('condition') or s.get('cond'), sc), s)
        self.report(V.neg(c))

    def s_IfStatNode(self, s, sc):
        return self.ifchain(s['if_clauses'], s.get('else_clause'), sc, s)

    def ifchain(self, clauses, other, sc, s):
        if not clauses:
            return self.block(other, sc) if other else 'fall'
        c0, rest = clauses[0], clauses[1:]
        c = self.truth(self.ev(c0['condition'], sc), s)
        if self.onlyraises(c0['body'], sc) and self.pyc(c):
            self.refcheck(c, s)
            return self.ifchain(rest, other, sc, s)
        if other and not rest and self.onlyraises(other, sc) and self.pyc(c):
            self.refcheck(V.neg(c), s)
            return self.block(c0['body'], sc)
        if self.onlyraises(c0['body'], sc):
            self.report(c)
            g = self.good(c)
            if g == V.TRUE:
                return 'raise'
            d = self.decide(g)
            if d is True:
                return 'raise'
            self.rejected(g, c0)
            self.push(V.neg(g))
            return self.ifchain(rest, other, sc, s)
        if other and not rest and self.onlyraises(other, sc):
            self.report(V.neg(c))
            g = self.good(c)
            self.rejected(V.neg(g), c0)
            self.push(g)
            return self.block(c0['body'], sc)
        c = self.good(c)
        d = self.decide(c)
        if d is True:
            return self.block(c0['body'], sc)
        if d is False:
            return self.ifchain(rest, other, sc, s)
        base = dict(sc.vars)
        keep = list(self.guards)
        self.push(c)
        ra = self.block(c0['body'], sc)
        va, reta = sc.vars, getattr(self, 'retval', None)
        sc.vars = dict(base)
        self.guards = keep + [('if', V.neg(c))]
        rb = self.ifchain(rest, other, sc, s)
        vb, retb = sc.vars, getattr(self, 'retval', None)
        self.guards = keep
        if ra == 'fall' and rb == 'fall':
            out = {}
            for q in set(va) | set(vb):
                x, y = va.get(q), vb.get(q)
                out[q] = x if x == y or y is None else y if x is None else ('ite', c, x, y)
            sc.vars = out
            return 'fall'
        if ra == 'raise' and rb == 'raise':
            return 'raise'
        if ra == 'raise':
            self.guards = keep + [('if', V.neg(c))]
            sc.vars = vb
            return rb
        if rb == 'raise':
            self.guards = keep + [('if', c)]
            sc.vars = va
            return ra
        if ra == 'return' and rb == 'return':
            self.retval = ('ite', c, reta, retb)
            return 'return'
        self.unclear(s, 'returns on one side of a condition')

    def pyc(self, c):
        return c[0] == 'pyc' or (c[0] in ('not', 'and', 'or') and any(self.pyc(x) for x in c[1:]))

    def refcheck(self, c, s):
        """An exception is raised when c holds: a test of a reference?"""
        def at(c, check, valid):
            if c[0] == 'pyc':
                return check if c[1] == 'check_refs' else valid
            if c[0] == 'k':
                return bool(c[1])
            if c[0] == 'not':
                return not at(c[1], check, valid)
            if c[0] in ('and', 'or'):
                a, b = at(c[1], check, valid), at(c[2], check, valid)
                return (a and b) if c[0] == 'and' else (a or b)
            self.unclear(s, 'test of a reference mixed with %s' % c[0])
        refs = set()

        def walk(c):
            if c[0] == 'pyc' and c[1] == 'valid':
                refs.add(c[2])
            elif c[0] in ('not', 'and', 'or'):
                for x in c[1:]:
                    walk(x)
        walk(c)
        for g in self.guards:
            if g[0] == 'if' and self.pyc(g[1]):
                c = ('and', g[1], c)
        if len(refs) != 1:
            self.unclear(s, 'test of references')
        if [at(c, x, y) for x in (True, False) for y in (True, False)] == [False, True, False, False]:
            self.refok.add(refs.pop())
        elif at(c, True, True) or at(c, False, True):
            self.find('refuses', self.name, s, 'refuses valid references')

    def push(self, c):
        if c[0] == 'and':
            self.push(c[1])
            self.push(c[2])
        elif c != V.TRUE:
            self.guards = self.guards + [('if', c)]

    def onlyraises(self, n, sc):
        st = self.u.stats(n)
        return bool(st) and st[-1]['_'] == 'RaiseStatNode' and all(x['_'] in ('RaiseStatNode', 'ExprStatNode', 'SingleAssignmentNode') for x in st)

    def rejected(self, c, node):
        """A condition on which the good world raises after all."""
        if self.hasrem(c):
            return
        self.rejects = getattr(self, 'rejects', []) + [(c, list(self.guards))]

    # -- failures of the C++ side

    def subst_fail(self, c, f):
        """The condition as seen when failure f has happened."""
        if c[0] == 'stc':
            (sid, op, a, b), = c[1]
            if sid != f.sid:
                return None
            if f.val is None:
                return V.TRUE
            x = f.val if a is None else a
            y = f.val if b is None else b
            return V.cmpv(op, x, y)
        if c[0] == 'not':
            r = self.subst_fail(c[1], f)
            return None if r is None else V.neg(r)
        if c[0] in ('and', 'or'):
            a, b = self.subst_fail(c[1], f), self.subst_fail(c[2], f)
            if c[0] == 'or':
                if V.TRUE in (a, b):
                    return V.TRUE
                return V.FALSE if a == V.FALSE and b == V.FALSE else None
            if V.FALSE in (a, b):
                return V.FALSE
            return V.TRUE if a == V.TRUE and b == V.TRUE else None
        if c[0] == 'flag':
            fl = f.flags.get(c[1])
            if fl is None:
                return None
            v = V.assume(fl, [])
            return V.truth(v) if v[0] == 'k' else (V.TRUE if v[0] == 'str' and v[1] else None)
        if c[0] == 'k':
            return c
        return None

    def report(self, c):
        """An exception is raised when c holds."""
        for f in self.fails:
            if not f.reported and self.subst_fail(c, f) == V.TRUE:
                f.reported = True
        # data left over
        if self.hasrem(c):
            self.leftover(c)

    def hasrem(self, c):
        if not isinstance(c, tuple):
            return False
        if c and c[0] in ('avail', 'rem') or (c and c[0] == 'op' and c[1] == 'atend'):
            return True
        return any(self.hasrem(x) for x in c if isinstance(x, tuple))

    def leftover(self, c):
        res = {}
        for left in (0, 1, 2, 7):
            res[left] = self.evrem(c, left)
        if res[0] is False and all(res[q] for q in (1, 2, 7)):
            self.checked_left = True
        elif res[0]:
            self.badleft = True

    def evrem(self, c, left):
        e = self.st.done[0] if self.st.done else None
        cur = self.st.mem.get(self.m.cursor)
        off = cur[2] if cur and cur[0] == 'cur' else None
        if cur is None or cur[0] != 'cur' or off is None:
            return None
        e, total = cur[1], None

        def ev(c):
            if c[0] == 'k':
                return bool(c[1])
            if c[0] == 'avail' and c[1] == e:
                return left + off >= c[2]
            if c[0] == 'op' and c[1] == 'atend' and c[2] == ('k', e):
                return left + off == c[3][1]
            if c[0] == 'not':
                r = ev(c[1])
                return None if r is None else not r
            if c[0] == 'or':
                a, b = ev(c[1]), ev(c[2])
                return True if a or b else (False if a is False and b is False else None)
            if c[0] == 'and':
                a, b = ev(c[1]), ev(c[2])
                return False if a is False or b is False else (True if a and b else None)
            if c[0] == 'stc':
                return ev(c[2])
            if c[0] == 'flag':
                return False
            return None
        return ev(c)

    def good(self, c):
        """The condition in the good world."""
        if c[0] == 'stc':
            return self.good(c[2])
        if c[0] == 'not':
            return V.neg(self.good(c[1]))
        if c[0] in ('and', 'or'):
            a, b = self.good(c[1]), self.good(c[2])
            if c[0] == 'and':
                return V.FALSE if V.FALSE in (a, b) else b if a == V.TRUE else a if b == V.TRUE else ('and', a, b)
            return V.TRUE if V.TRUE in (a, b) else b if a == V.FALSE else a if b == V.FALSE else ('or', a, b)
        if c[0] == 'flag':
            return V.truth(c[2]) if c[2][0] in ('k', 'cmp') else V.FALSE if c[2] == ('str', '') else V.TRUE if c[2][0] == 'str' else c
        if self.hasrem(c):
            return V.FALSE if self.evrem(c, 0) is False else V.TRUE if self.evrem(c, 0) else c
        return c

    def facts(self):
        return [g[1] for g in self.guards if g[0] == 'if']

    def decide(self, c):
        if c[0] == 'k':
            return bool(c[1])
        if c[0] == 'nonempty':
            n = self.m.length(self.st, c[1])
            lo = low(n)
            if lo is not None and lo > 0:
                return True
            if n == k(0):
                return False
            if ('if', c) in self.guards:
                return True
            if ('if', ('not', c)) in self.guards:
                return False
            return None
        if c[0] == 'not':
            r = self.decide(c[1])
            return None if r is None else not r
        if c[0] == 'and':
            a, b = self.decide(c[1]), self.decide(c[2])
            return False if a is False or b is False else True if a and b else None
        if c[0] == 'or':
            a, b = self.decide(c[1]), self.decide(c[2])
            return True if a or b else False if a is False and b is False else None
        return V.decide(c, self.facts())

    # -- loops

    def s_ForInStatNode(self, s, sc):
        it = s['iterator']['sequence'] if s['iterator']['_'] == 'IteratorNode' else s['iterator']
        if s.get('else_clause'):
            self.unclear(s, 'for else')
        if it['_'] == 'SimpleCallNode' and it['function']['_'] == 'NameNode' and it['function']['name'] in ('range', 'xrange') and len(it['args']) == 1:
            n = self.ev(it['args'][0], sc)
            if n[0] == 'size':
                return self.each(n[1], s, sc, True)
            if n[0] == 'nat' and n[1][0] == 'k' and n[1][1] <= 64:
                for i in range(n[1][1]):
                    self.assign(s['target'], ('nat', k(i), 'int'), sc, s)
                    if self.block(s['body'], sc) != 'fall':
                        self.unclear(s, 'leaves a loop')
                return 'fall'
            self.unclear(s, 'loop over a range')
        v = self.ev(it, sc)
        if v[0] == 'ref' and v[2].split('[')[0] == 'vector':
            return self.each(v, s, sc, False)
        if v[0] == 'list':
            keep = self.guards
            for i, x, g in v[1].items:
                self.guards = keep + [q for q in g if q not in keep]
                self.assign(s['target'], x, sc, s)
                if self.block(s['body'], sc) != 'fall':
                    self.unclear(s, 'leaves a loop')
            self.guards = keep
            return 'fall'
        self.unclear(s, 'loop over %s' % v[0])

    def each(self, vec, s, sc, index):
        et = vec[2][vec[2].index('[') + 1:-1]
        keep = self.guards
        for eloc, idx, path in self.elements(vec[1], s):
            self.guards = [g for g in keep if g != ('if', ('nonempty', vec[1]))]
            self.guards = self.guards + [g for g in path if g not in self.guards]
            if index:
                val = ('nat', idx, 'size_t')
            elif et in self.u.structs or et.split('[')[0] == 'vector':
                val = ('ref', eloc, et)
            else:
                val = ('nat', self.field(eloc, et, s), et)
            self.assign(s['target'], val, sc, s)
            if self.block(s['body'], sc) != 'fall':
                self.unclear(s, 'leaves a loop')
        self.guards = keep
        return 'fall'

    def index(self):
        """Where the elements of each vector come from."""
        if self.elements_cache is not None and self.elements_cache[0] == len(self.st.out):
            return self.elements_cache[1]
        app, loops = {}, {}

        def walk(out, path):
            path = path + [('if', x[1]) for x in out if x[0] == 'Assert']
            for x in out:
                if x[0] == 'Append':
                    app.setdefault(x[1], []).append(('a', x[2], path))
                elif x[0] == 'Resize':
                    app.setdefault(x[1], []).append(('r', x[2], path))
                elif x[0] == 'Clear':
                    app.setdefault(x[1], []).append(('c', None, path))
                elif x[0] == 'Alt':
                    walk(x[2], path + [('if', x[1])])
                    walk(x[3], path + [('if', V.neg(x[1]))])
                elif x[0] == 'Loop':
                    loops[x[1]] = (x[2], path + [('loop', x[1])] + [('if', y[1]) for y in x[3] if y[0] == 'Assert'])
                    walk(x[3], path + [('loop', x[1])])
                elif x[0] == 'While':
                    loops[x[1]] = (None, path + [('loop', x[1])] + [('if', y[1]) for y in x[3] if y[0] == 'Assert'])
                    walk(x[3], path + [('loop', x[1]), ('if', x[2])])
                    walk(x[4], path)
        walk(self.st.out, [])
        self.elements_cache = (len(self.st.out), (app, loops))
        return app, loops

    def elements(self, loc, node):
        """[(element location, index, path)] of a vector."""
        app, loops = self.index()
        ev = app.get(loc, [])
        out, seen = [], set()
        for kind, x, path in ev:
            if kind == 'c':
                self.unclear(node, 'a vector that is cleared')
            if kind == 'a':
                if (x, repr(path)) in seen:
                    continue
                seen.add((x, repr(path)))
                out.append((x, x[-1][1], path))
            else:
                size = x
                idxs = []
                for q in list(self.st.mem):
                    if len(q) > len(loc) and q[:len(loc)] == loc and q[len(loc)][0] == 'e':
                        i = q[len(loc)][1]
                        if i not in idxs and i != '*' and not cpp.mentions_pv(i):
                            idxs.append(i)
                for i in sorted(idxs, key=repr):
                    p = list(path)
                    for a in atoms(i):
                        if a[0] == 'iv' and a[1] in loops:
                            cnt, lp = loops[a[1]]
                            p = p + [g for g in lp if g not in p]
                            if cb_(cnt) != cb_(size) and V.cb(i) == a:
                                self.partial(loc, cnt, size, node)
                    e = loc + (('e', i),)
                    if any(o[0] == e for o in out):
                        continue
                    out.append((e, i, p))
                if size[0] == 'k' and not idxs and size[1]:
                    out.append((loc + (('e', k(0)),), k(0), path))
        if not ev and self.m.length(self.st, loc) != k(0):
            if not (self.m.length(self.st, loc)[0] == 'len' and not any(q[:len(loc)] == loc and len(q) > len(loc) for q in self.st.mem)):
                self.unclear(node, 'a vector of unknown origin %s' % self.m.lname(loc))
        return out

    def unify(self):
        """Loops that each run over all elements of one vector speak of the same elements."""
        while True:
            app, loops = self.index()
            ren = None
            for loc, evs in app.items():
                sizes = [x for kd, x, p in evs if kd == 'r']
                if len(sizes) != 1 or any(kd != 'r' for kd, x, p in evs):
                    continue
                n = len(loc)
                full = []
                for q in list(self.st.mem) + list(self.st.lens) + list(app):
                    if len(q) > n and q[:n] == loc and q[n][0] == 'e' and q[n][1] != '*' and q[n][1][0] == 'iv':
                        L = q[n][1][1]
                        if L in loops and loops[L][0] is not None and V.cb(loops[L][0]) == V.cb(sizes[0]) and L not in full:
                            full.append(L)
                if len(full) > 1:
                    a = min(full)
                    ren = (loc, set(full) - {a}, a)
                    break
            if ren is None:
                return
            loc, old, new = ren
            n = len(loc)

            def r(q):
                if len(q) > n and q[:n] == loc and q[n][0] == 'e' and q[n][1] != '*' and q[n][1][0] == 'iv' and q[n][1][1] in old:
                    return q[:n] + (('e', ('iv', new)),) + q[n + 1:]
                return q

            def tree(out):
                res = []
                for x in out:
                    if x[0] in ('Append', 'Resize', 'Clear'):
                        x = (x[0], r(x[1]), r(x[2]) if x[0] == 'Append' else x[2]) + x[3:]
                    elif x[0] == 'Alt':
                        x = (x[0], x[1], tree(x[2]), tree(x[3]))
                    elif x[0] == 'Loop':
                        x = x[:3] + (tree(x[3]),) + x[4:]
                    elif x[0] == 'While':
                        x = x[:3] + (tree(x[3]), tree(x[4])) + x[5:]
                    res.append(x)
                return res
            for name in ('mem', 'lens', 'init', 'gen'):
                tab = getattr(self.st, name)
                setattr(self.st, name, dict((r(q), v) for q, v in sorted(tab.items(), key=lambda i: r(i[0]) == i[0])))
            self.st.out = tree(self.st.out)
            self.elements_cache = None

    def partial(self, loc, cnt, size, node):
        self.partials = getattr(self, 'partials', [])
        self.partials.append((loc, cnt, size))

    # -- values

    def field(self, loc, t, node):
        v = self.st.mem.get(loc)
        if v is None:
            v = self.m.missing(self.st, loc, None, node)
        v = V.assume(v, self.facts())
        if t in CINT and t != 'bint':
            v = self.m.view(v, {'uint8_t': 'unsigned char', 'int8_t': 'signed char', 'uint16_t': 'unsigned short', 'int16_t': 'short',
                                'uint32_t': 'unsigned int', 'int32_t': 'int', 'uint64_t': 'unsigned long', 'int64_t': 'long'}.get(t, t), node)
        return v

    def truth(self, v, node):
        if v[0] == 'nat':
            return V.truth(v[1])
        if v[0] == 'cond':
            return v[1]
        if v[0] == 'size':
            return ('nonempty', v[1][1])
        if v[0] == 'none':
            return V.FALSE
        if v[0] in ('obj', 'cls'):
            return V.TRUE
        if v[0] == 'str':
            return V.TRUE if v[1] else V.FALSE
        if v[0] == 'ite':
            return V.cite(v[1], self.truth(v[2], node), self.truth(v[3], node))
        if v[0] == 'flagval':
            return ('flag', v[1], v[2])
        if v == ('bound', ('root',), 'check_refs'):
            return ('pyc', 'check_refs')
        if v[0] == 'bound' and v[1][0] == 'objref' and v[2] == 'valid':
            return ('pyc', 'valid', v[1][1])
        if v[0] == 'objref':
            return V.TRUE
        if v[0] == 'text':
            return ('pyt', v)
        self.unclear(node, 'truth of %s' % v[0])

    def ev(self, n, sc):
        f = getattr(self, 'x_' + n['_'], None)
        if f is None:
            self.unclear(n, 'expression %s' % n['_'])
        return f(n, sc)

    def x_IntNode(self, n, sc):
        return ('nat', k(int(str(n['value']).rstrip('uUlL'), 0)), 'int')

    def x_BoolNode(self, n, sc):
        return ('nat', k(int(bool(n['value']))), 'bool')

    def x_FloatNode(self, n, sc):
        return ('nat', ('fl', str(float(n['value']))), 'double')

    def x_NoneNode(self, n, sc):
        return ('none',)

    def x_NullNode(self, n, sc):
        return ('nat', ('null',), 'void*')

    def x_UnicodeNode(self, n, sc):
        return ('str', n.get('value') or '')

    def x_StringNode(self, n, sc):
        v = n.get('unicode_value') or n.get('value') or ''
        return ('str', v['bytes'] if isinstance(v, dict) else v)

    def x_IdentifierStringNode(self, n, sc):
        return ('str', n.get('value') or '')

    def x_BytesNode(self, n, sc):
        v = n.get('value') or ''
        return ('bytes', v['bytes'] if isinstance(v, dict) else v)

    def x_NameNode(self, n, sc):
        nm = n['name']
        if nm in sc.vars:
            v = sc.vars[nm]
            if v[0] == 'unset':
                self.find('uninit', '%s %s' % (self.name, nm), n, 'uses %s before anything is stored in it' % nm)
            return v
        if nm in self.u.consts:
            if nm in self.m.enums:
                return ('nat', k(self.m.enums[nm]), 'int')
            self.unclear(n, 'value of %s' % nm)
        if nm in ('True', 'False'):
            return ('nat', k(int(nm == 'True')), 'bool')
        if nm == 'None':
            return ('none',)
        return ('global', nm)

    def x_AttributeNode(self, n, sc):
        a = n['attribute']
        o = self.ev(n['obj'], sc)
        return self.attr(o, a, n)

    def attr(self, o, a, n):
        if o[0] == 'ite':
            return ('ite', o[1], self.attr(o[2], a, n), self.attr(o[3], a, n))
        if o[0] == 'ref':
            t = o[2].rstrip('*&')
            if t.split('[')[0] == 'vector':
                return ('bound', o, a)
            kind, fields = self.u.structs.get(t, (None, {}))
            if a not in fields:
                self.unclear(n, 'member %s of %s' % (a, t))
            ft = fields[a]
            if kind == 'union':
                loc = o[1] + (('f', '*u'),)
            else:
                loc = o[1] + (('f', a),)
            if ft in self.u.structs or ft.split('[')[0] == 'vector':
                return ('ref', loc, ft)
            v = self.field(loc, ft, n)
            if o[1] == self.m.buf and a not in ('ptr', 'root', 'end') and loc != self.m.cursor:
                return ('flagval', a, v)
            if v[0] == 'uninit':
                self.find('uninit', '%s %s' % (self.name, self.m.lname(loc)), n, 'uses %s, which nothing has set' % self.m.lname(loc))
            return ('nat', v, ft)
        if o[0] == 'global':
            return ('global', o[1] + '.' + a)
        return ('bound', o, a)

    def x_IndexNode(self, n, sc):
        b = self.ev(n['base'], sc)
        i = self.ev(n['index'], sc)
        if b[0] == 'global' and i[0] == 'str':
            if b[1].endswith('AVBClassName_dict'):
                return ('cls', i[1])
            self.unclear(n, 'look up in %s' % b[1])
        if b[0] == 'global' and b[1].endswith('AVBClassName_dict') and i[0] == 'ite':
            return mapv(i, lambda x: ('cls', x[1]) if x[0] == 'str' else self.unclear(n, 'class name'))
        if b[0] == 'data' and i[0] == 'nat':
            return ('dbyte', i[1])
        if b[0] == 'bound' and b[1][0] == 'data' and b[2] == 'shape':
            return ('nat', self.total(), 'Py_ssize_t')
        if b[0] == 'ref' and b[2].split('[')[0] == 'vector' and i[0] == 'nat':
            et = b[2][b[2].index('[') + 1:-1]
            loc = b[1] + (('e', V.cb(i[1])),)
            return ('vel', b, i[1], et, loc)
        self.unclear(n, 'index of %s' % b[0])

    def total(self):
        return ('rem', 0)

    def load_el(self, v, n):
        """Rvalue of vector[i]."""
        _, b, i, et, loc = v
        self.inside(b[1], V.add(i, k(1)), n)
        if et in self.u.structs or et.split('[')[0] == 'vector':
            return ('ref', loc, et)
        return ('nat', self.field(loc, et, n), et)

    def inside(self, loc, top, n):
        """top <= size of the vector"""
        self.obl += 1
        size = self.m.length(self.st, loc)
        c = V.cmpv('le', top, size)
        d = self.decide(c)
        if d is None:
            d = V.decide(c, self.facts())
        if d is None and V.cb(top) == V.cb(size):
            d = True
        if d is None:
            lo, hi = low(size), high(top)
            if lo is not None and hi is not None and hi <= lo:
                d = True
            elif top[0] == 'k' and top[1] <= 1 and ('if', ('nonempty', loc)) in self.guards:
                d = True
        if d is False:
            self.find('overread', '%s %s' % (self.name, self.m.lname(loc)), n,
                      'takes %s bytes or elements of %s, which holds %s' % (cpp.show(top), self.m.lname(loc), cpp.show(size)))
        elif d is None:
            self.m.unclears.append('src/avb/_ext.pyx:%s: %s elements of %s' % (n.get('line'), cpp.show(top), self.m.lname(loc)))

    def x_AmpersandNode(self, n, sc):
        v = self.ev(n['operand'], sc) if n['operand']['_'] != 'IndexNode' else self.x_IndexNode(n['operand'], sc)
        if v[0] == 'dbyte':
            i = v[1]
            if i[0] == 'k':
                return ('nat', ('cur', 0, i[1]) if i[1] >= 0 else ('end', i[1]), 'ptr')
            c = V.add(('cur', 0, 0), i)
            return ('nat', c, 'ptr')
        if v[0] == 'vel':
            return ('vptr', v[1], v[2], v[3])
        if v[0] == 'ref':
            return v
        self.unclear(n, 'address of %s' % v[0])

    def val(self, v, n):
        if v[0] == 'vel':
            return self.load_el(v, n)
        return v

    def x_TypecastNode(self, n, sc):
        v = self.val(self.ev(n['operand'], sc), n)
        t = tname(n['base_type'], n.get('declarator'))
        return self.typecast(v, t, n)

    def typecast(self, v, t, n):
        if v[0] == 'ite':
            return ('ite', v[1], self.typecast(v[2], t, n), self.typecast(v[3], t, n))
        if t in CINT and v[0] in ('nat', 'size'):
            if v[0] == 'size':
                return v
            return ('nat', self.cast(v[1], t), t)
        if v[0] == 'slice' and t in ('bytes', 'bytearray'):
            return ('slice', v[1], v[2], v[3], t)
        if t in ('object', 'dict', 'list', 'str', 'double') or t.endswith('*'):
            return v
        if t in ('bytes', 'unicode', 'bytearray'):
            return v
        self.unclear(n, 'cast of %s to %s' % (v[0], t))

    def x_SliceIndexNode(self, n, sc):
        b = self.val(self.ev(n['base'], sc), n)
        start = self.ev(n['start'], sc) if n.get('start') else ('nat', k(0), 'int')
        stop = self.ev(n['stop'], sc) if n.get('stop') else None
        return self.slice(b, start, stop, n)

    def slice(self, b, start, stop, n):
        if b[0] == 'ite':
            return ('ite', b[1], self.slice(b[2], start, stop, n), self.slice(b[3], start, stop, n))
        if stop is not None and stop[0] == 'ite':
            return ('ite', stop[1], self.slice(b, start, stop[2], n), self.slice(b, start, stop[3], n))
        if b[0] == 'vptr' and stop is not None:
            size = ('nat', self.m.length(self.st, stop[1][1]), 'size_t') if stop[0] == 'size' else stop
            if size[0] != 'nat' or start[0] != 'nat':
                self.unclear(n, 'slice bounds')
            off = V.add(b[2], start[1])
            if stop[0] == 'size' and stop[1][1] == b[1][1] and off == k(0):
                return ('slice', b[1][1], k(0), ('whole',), 'bytes')
            else:
                self.inside(b[1][1], V.add(b[2], size[1]), n)
            return ('slice', b[1][1], off, V.add(b[2], size[1]), 'bytes')
        if b[0] == 'slice':
            if start[0] == 'nat' and start[1] == k(0) and stop is None:
                return b
        self.unclear(n, 'slice of %s' % b[0])

    def x_TupleNode(self, n, sc):
        l = List('tuple')
        l.items = [(k(i), self.val(self.ev(a, sc), n), list(self.guards)) for i, a in enumerate(n['args'])]
        return ('list', l)

    def x_ListNode(self, n, sc):
        l = List('list')
        l.items = [(k(i), self.val(self.ev(a, sc), n), list(self.guards)) for i, a in enumerate(n['args'])]
        return ('list', l)

    def x_DictNode(self, n, sc):
        d = Dict('dict')
        for it in n['key_value_pairs']:
            d.stores.append((self.ev(it['key'], sc), self.val(self.ev(it['value'], sc), n), list(self.guards)))
        return ('dict', d)

    def x_ComprehensionNode(self, n, sc):
        if (n.get('type') or 'list') not in ('list', 'PyObjectType', 'BuiltinObjectType') and n.get('loop') is None:
            self.unclear(n, 'comprehension')
        loop = n['loop']
        if loop['_'] != 'ForInStatNode':
            self.unclear(n, 'comprehension')
        body = loop['body']
        out = List('list')
        app = body
        if app['_'] != 'ComprehensionAppendNode' and not (app['_'] == 'ExprStatNode' and app['expr']['_'] == 'ComprehensionAppendNode'):
            self.unclear(n, 'conditional comprehension')
        expr = app['expr'] if app['_'] == 'ComprehensionAppendNode' else app['expr']['expr']
        self.compr = (out, expr)
        fake = dict(loop)
        fake['body'] = {'_': 'ComprBody', 'line': n.get('line'), 'out': out, 'expr': expr}
        self.s_ForInStatNode(fake, sc)
        return ('list', out)

    def s_ComprBody(self, s, sc):
        s['out'].items.append(('end', self.val(self.ev(s['expr'], sc), s), list(self.guards)))

    def x_CondExprNode(self, n, sc):
        c = self.good(self.truth(self.ev(n.get('test') or n.get('condition'), sc), n))
        d = self.decide(c)
        if d is not None:
            return self.val(self.ev(n['true_val'] if d else n['false_val'], sc), n)
        keep = self.guards
        self.push(c)
        a = self.val(self.ev(n['true_val'], sc), n)
        self.guards = keep
        self.push(V.neg(c))
        b = self.val(self.ev(n['false_val'], sc), n)
        self.guards = keep
        return ('ite', c, a, b)

    def x_BoolBinopNode(self, n, sc):
        a = self.ev(n['operand1'], sc)
        if a[0] in ('text', 'ite') and n['operator'] == 'or':
            b = self.ev(n['operand2'], sc)
            if b == ('none',):
                return mapv(a, lambda x: x if x == ('none',) else ('none',) if x == ('str', '') else ('orelse', x, b))
        ca = self.truth(a, n)
        g = self.good(ca)
        keep = self.guards
        self.push(g if n['operator'] == 'and' else V.neg(g))
        cb = self.truth(self.ev(n['operand2'], sc), n)
        self.guards = keep
        return ('cond', ('and' if n['operator'] == 'and' else 'or', ca, cb))

    def x_NotNode(self, n, sc):
        c = self.truth(self.ev(n['operand'], sc), n)
        return ('cond', V.neg(c) if c[0] not in ('nonempty', 'flag') else ('not', c))

    def x_PrimaryCmpNode(self, n, sc):
        if n.get('cascade'):
            self.unclear(n, 'chained comparison')
        a, b = self.val(self.ev(n['operand1'], sc), n), self.val(self.ev(n['operand2'], sc), n)
        return ('cond', self.compare(n['operator'], a, b, n))

    def compare(self, op, a, b, n):
        if a[0] == 'ite':
            return V.cite(a[1], self.compare(op, a[2], b, n), self.compare(op, a[3], b, n))
        if b[0] == 'ite':
            return V.cite(b[1], self.compare(op, a, b[2], n), self.compare(op, a, b[3], n))
        if op in ('in', 'not_in', 'not in') and b[0] in ('list',):
            r = V.FALSE
            for i, x, g in b[1].items:
                c = self.compare('==', a, x, n)
                r = c if r == V.FALSE else V.TRUE if V.TRUE in (r, c) else r if c == V.FALSE else ('or', r, c)
            return r if op == 'in' else V.neg(r)
        if a[0] == 'size' and b[0] == 'nat' and b[1][0] == 'k':
            z = b[1][1]
            ne = ('nonempty', a[1][1])
            if (op, z) in (('>', 0), ('!=', 0), ('>=', 1)):
                return ne
            if (op, z) in (('==', 0), ('<', 1), ('<=', 0)):
                return ('not', ne)
            a = ('nat', self.m.length(self.st, a[1][1]), 'size_t')
        if a[0] == 'str' and b[0] == 'str' and op in ('==', '!='):
            return V.TRUE if (a[1] == b[1]) == (op == '==') else V.FALSE
        if op in ('is', 'is_not') and (a == ('none',) or b == ('none',)):
            r = V.TRUE if a == b else V.FALSE
            return r if op == 'is' else V.neg(r)
        if a[0] == 'flagval' and b[0] == 'nat':
            if op in ('!=', 'is_not') and b[1] in (k(0), ('null',)):
                return ('flag', a[1], a[2])
            if op == '==' and b[1] in (k(0), ('null',)):
                return ('not', ('flag', a[1], a[2]))
            if op == '>' and b[1] == k(0):
                return ('flag', a[1], a[2])
        if a[0] == 'nat' and b[0] == 'nat':
            ops = {'==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}
            if op in ops:
                return V.cmpv(ops[op], a[1], b[1])
        self.unclear(n, 'comparison %s of %s and %s' % (op, a[0], b[0]))

    def num(self, n, sc, op):
        a, b = self.val(self.ev(n['operand1'], sc), n), self.val(self.ev(n['operand2'], sc), n)
        if a[0] == 'size':
            a = ('nat', self.m.length(self.st, a[1][1]), 'size_t')
        if b[0] == 'size':
            b = ('nat', self.m.length(self.st, b[1][1]), 'size_t')
        if a[0] == 'nat' and b[0] == 'nat':
            return ('nat', V.binop(op, a[1], b[1], 8, True), a[2])
        if op == '%' and a[0] == 'str':
            return ('text', a)
        if op == '+' and (a[0] in ('str', 'text') or b[0] in ('str', 'text')):
            return ('text', a, b)
        self.unclear(n, 'operator %s on %s' % (op, a[0]))

    def x_AddNode(self, n, sc):
        return self.num(n, sc, '+')

    def x_SubNode(self, n, sc):
        return self.num(n, sc, '-')

    def x_MulNode(self, n, sc):
        return self.num(n, sc, '*')

    def x_DivNode(self, n, sc):
        return self.num(n, sc, '/')

    def x_ModNode(self, n, sc):
        return self.num(n, sc, '%')

    def x_UnaryMinusNode(self, n, sc):
        v = self.ev(n['operand'], sc)
        if v[0] == 'nat':
            return ('nat', V.mulk(v[1], -1), v[2])
        self.unclear(n, 'minus')

    # -- calls

    def x_GeneralCallNode(self, n, sc):
        pos = n['positional_args']['args'] if n['positional_args'].get('_') == 'TupleNode' else None
        if pos is None:
            self.unclear(n, 'star call')
        kw = {}
        if n.get('keyword_args'):
            for it in n['keyword_args'].get('key_value_pairs', []):
                kw[self.ev(it['key'], sc)[1]] = self.val(self.ev(it['value'], sc), n)
        return self.call(n, n['function'], [self.val(self.ev(a, sc), n) for a in pos], kw, sc)

    def x_SimpleCallNode(self, n, sc):
        return self.call(n, n['function'], [self.val(self.ev(a, sc), n) for a in n['args']], {}, sc)

    def call(self, n, fnode, args, kw, sc):
        if fnode['_'] == 'AttributeNode':
            o = self.ev(fnode['obj'], sc)
            if o[0] == 'vel':
                o = self.load_el(o, n)
            if not (o[0] == 'global'):
                return self.method(n, o, fnode['attribute'], args, kw)
            name = o[1] + '.' + fnode['attribute']
        else:
            f = self.ev(fnode, sc)
            if f[0] == 'cls':
                return ('obj', Obj(f[1], (args, kw)))
            if f[0] == 'bound':
                return self.method(n, f[1], f[2], args, kw)
            if f[0] != 'global':
                self.unclear(n, 'call of %s' % f[0])
            name = f[1]
        short = name.split('.')[-1]
        if name in self.u.externs:
            return self.native(n, name, args)
        if name in self.u.funcs:
            return self.invoke(n, name, args, kw)
        if short == '__new__':
            c = args[0] if args else None
            cls = name.split('.')[-2] if name.count('.') else '?'
            if c is not None and c[0] == 'cls':
                cls = c[1]
            return ('obj', Obj(cls, (args[1:], kw)))
        if short == 'AVBObjectRef':
            if len(args) == 2 and args[0] == ('root',):
                return mapv(args[1], lambda v: ('objref', self.need_nat(v, n)))
            self.unclear(n, 'AVBObjectRef arguments')
        if short == 'read_object_ref' and len(args) == 2:
            return mapv(args[1], lambda v: ('objref', self.need_nat(v, n)))
        if short == 'fromtimestamp' and args:
            return ('pycall', 'datetime.fromtimestamp', tuple(args) + tuple(sorted(kw.items())))
        if short == 'UUID':
            return ('pycall', 'UUID', tuple(args) + tuple(sorted(kw.items())))
        if short == 'MobID':
            return ('pycall', 'MobID', tuple(args) + tuple(sorted(kw.items())))
        if short in ('AVBPropertyData', 'dict') and not args:
            return ('dict', Dict(short))
        if short == 'len' and args and args[0][0] == 'data':
            return ('nat', self.total(), 'Py_ssize_t')
        if short in ('bytearray', 'bytes'):
            if not args:
                return ('slice', None, k(0), k(0), short)
            return mapv(args[0], lambda v: v[:4] + (short,) if v[0] == 'slice' else self.unclear(n, '%s of %s' % (short, v[0])))
        if short in ('list', 'tuple'):
            if not args:
                return ('list', List(short))
            if args[0][0] == 'ref':
                return ('vecval', args[0], short)
            if args[0][0] == 'list':
                l = List(short)
                l.items = args[0][1].items
                return ('list', l)
        if short == 'int' and len(args) == 1 and args[0][0] == 'nat':
            return args[0]
        if short == 'bool' and len(args) == 1:
            return ('nat', self.truth(args[0], n), 'bint')
        if short in ('ValueError', 'Exception', 'AssertionError', 'EOFError', 'print'):
            return ('text',)
        if short in ('AVBRefList',):
            return ('obj', Obj('AVBRefList', (args, kw)))
        self.unclear(n, 'call of %s' % name)

    def need_nat(self, v, n):
        if v[0] != 'nat':
            self.unclear(n, 'reference to %s' % v[0])
        return v[1]

    def method(self, n, o, a, args, kw):
        if o[0] == 'ite':
            return ('ite', o[1], self.method(n, o[2], a, args, kw), self.method(n, o[3], a, args, kw))
        if o[0] == 'ref' and o[2].split('[')[0] == 'vector':
            if a == 'size':
                return ('size', o)
            if a == 'empty':
                return ('cond', ('not', ('nonempty', o[1])))
            if a in ('reserve', 'clear'):
                return ('none',)
            if a == 'data':
                return ('vptr', o, k(0), o[2][o[2].index('[') + 1:-1])
            if a == 'at' and args[0][0] == 'nat':
                et = o[2][o[2].index('[') + 1:-1]
                return self.load_el(('vel', o, args[0][1], et, o[1] + (('e', V.cb(args[0][1])),)), n)
        if a == 'decode':
            enc = args[0][1] if args and args[0][0] == 'str' else kw.get('encoding', ('str', 'utf-8'))[1]
            if o[0] == 'nat':
                return mapn(o[1], lambda v: ('str', v[1]) if v[0] == 'str' else ('str', '?%r' % (v,)))
            if o[0] == 'flagval':
                return ('text',)
            if o[0] == 'str':
                return o
            if o[0] == 'slice':
                return ('text', o, enc.lower().replace('_', '').replace('-', ''))
            if o[0] == 'stripped':
                return ('text', o, enc.lower().replace('_', '').replace('-', ''))
        if a == 'strip' and o[0] == 'slice' and len(args) == 1 and args[0][0] == 'bytes':
            return ('stripped', o, args[0][1])
        if a == 'strip' and o[0] == 'text' and len(args) == 1 and args[0] == ('str', '\x00'):
            return ('text', ('stripped', o[1], '\x00'), o[2])
        if o[0] == 'list' and a == 'append':
            o[1].items.append(('end', args[0], list(self.guards)))
            return ('none',)
        if o[0] == 'obj':
            if a == '__init__':
                o[1].calls.append((a, args, list(self.guards), kw))
                return ('none',)
            o[1].calls.append((a, args, list(self.guards), kw))
            return ('none',)
        if o[0] == 'cls' and a == '__new__':
            return ('obj', Obj(o[1], (args, kw)))
        if o[0] == 'data':
            self.unclear(n, 'data.%s' % a)
        if o[0] == 'root':
            return ('rootcall', a, tuple(args))
        if o[0] == 'dict' and a in ('update',) and len(args) == 1 and args[0][0] == 'dict':
            for key, v, g in args[0][1].stores:
                o[1].stores.append((key, v, g))
            return ('none',)
        if o[0] == 'object':
            if a == '__setitem__':
                self.items.append((args[0], args[1], list(self.guards)))
                return ('none',)
        if o[0] == 'cls' and a in ('__name__',):
            return ('str', o[1])
        self.unclear(n, 'method %s of %s' % (a, o[0]))

    def invoke(self, n, name, args, kw):
        f = self.u.funcs[name]
        self.used.add(name)
        cdef = f['_'] == 'CFuncDefNode'
        a = f['declarator']['args'] if cdef else f['args']
        d = f.get('declarator')
        if cdef:
            while d is not None and d['_'] != 'CFuncDeclaratorNode':
                d = d.get('base')
            a = d['args']
            t = tname(f['base_type'], f['declarator'])
            pyret = t in ('object', 'dict', 'list', 'bytes', 'str', 'tuple', 'bytearray', 'unicode')
            if not pyret and not d.get('exception_check') and d.get('exception_value') is None and not d.get('nogil'):
                self.swallow.add((name, f.get('line')))
        sc = Scope()
        if len(a) < len(args):
            self.unclear(n, 'arguments of %s' % name)
        for i, p in enumerate(a):
            pn = dname(p['declarator']) or (p['base_type'].get('name'))
            t = tname(p['base_type'], p['declarator'])
            sc.types[pn] = t
            if i < len(args):
                v = args[i]
            elif pn in kw:
                v = kw[pn]
            elif p.get('default'):
                v = self.ev(p['default'], sc)
            else:
                self.unclear(n, 'arguments of %s' % name)
            if v[0] == 'ref' and t.rstrip('*&') in self.u.structs:
                v = ('ref', v[1], t.rstrip('*&'))
            sc.vars[pn] = self.conv(v, t)
        if getattr(self, 'depth', 0) > 20:
            self.unclear(n, 'recursion in %s' % name)
        self.depth = getattr(self, 'depth', 0) + 1
        keep = list(self.guards)
        self.retval = ('none',)
        r = self.block(f['body'], sc)
        self.depth -= 1
        rv = self.retval if r == 'return' else ('none',)
        self.retval = ('none',)
        if r == 'raise':
            self.unclear(n, '%s always raises' % name)
        # conditions met by raising stay
        self.guards = keep if self.guards[:len(keep)] != keep else self.guards
        return rv

    def native(self, n, name, args):
        fn = self.m.byname.get(name)
        if fn is None or '_body' not in fn:
            self.unclear(n, 'no body of %s' % name)
        if self.m.buf is None or self.m.cursor is None:
            self.unclear(n, 'the buffer is not set up')
        self.started = self.st.mem.get(self.m.cursor)
        vals = []
        for a in args:
            if a[0] == 'ref':
                vals.append(('ptr', a[1], ()))
            elif a[0] == 'nat':
                vals.append(a[1])
            else:
                self.unclear(n, 'argument %s' % a[0])
        nd = len(self.m.dropped)
        # a flag the entry set up may be set by the time it is tested
        flags = {}
        for q, x in list(self.st.mem.items()):
            if len(q) == len(self.m.buf) + 1 and q[:-1] == self.m.buf and q[-1][0] == 'f' and x[0] == 'k':
                flags[q] = x
                self.st.mem[q] = ('flag', q[-1][1])
        v = self.m.call(self.st, fn, vals, 'the entry')
        self.m.flush(self.st)
        for q, x in flags.items():
            if self.st.mem.get(q) == ('flag', q[-1][1]):
                self.st.mem[q] = x
        if self.st.end is not None and self.st.end[0] == 'fail':
            self.unclear(n, '%s always fails' % name)
        self.st.end = None
        self.elements_cache = None
        self.unify()
        if v[0] == 'st':
            sid = v[1]
            for val, flags, reason in self.m.status[sid][2]:
                self.fails.append(Fail(name, val, flags, reason, sid))
        for caller, callee, line, fails in self.m.dropped[nd:]:
            for val, flags, reason in fails:
                f = Fail('%s, from %s at %s' % (callee, caller, line), val, flags, reason, None)
                f.drop = (caller, callee, line)
                self.fails.append(f)
        self.called = name
        if "('flag', 'error_message')" in repr(self.st.out):
            for f in self.fails:
                if 'error_message' in f.flags:
                    f.flags['?'] = True
        # what is tested after the last byte was taken
        for x in reversed(self.st.out):
            if x[0] in ('B', 'Alt', 'Loop', 'While', 'Block'):
                break
            if x[0] == 'AtEnd':
                self.checked_left = True
            if x[0] == 'Assert':
                for f in self.fails:
                    if not f.reported and f.flags and V.decide(flagged(x[1], f.flags), []) is False:
                        f.reported = True
        return ('nat', v, 'int')


def flagged(c, flags):
    """The condition with the flags set as on a failing path."""
    if c[0] == 'not':
        return V.neg(flagged(c[1], flags))
    if c[0] in ('and', 'or'):
        a, b = flagged(c[1], flags), flagged(c[2], flags)
        if c[0] == 'and':
            return V.FALSE if V.FALSE in (a, b) else V.TRUE if a == b == V.TRUE else ('and', a, b)
        return V.TRUE if V.TRUE in (a, b) else V.FALSE if a == b == V.FALSE else ('or', a, b)
    if c[0] == 'cmp':
        a, b = [flags.get(x[1], x) if x[0] == 'flag' else x for x in c[2:4]]
        return V.cmpv(c[1], a, b)
    return c


def mapv(v, f):
    if v[0] == 'ite':
        return ('ite', v[1], mapv(v[2], f), mapv(v[3], f))
    return f(v)


def mapn(v, f):
    if v[0] == 'ite':
        return ('ite', v[1], mapn(v[2], f), mapn(v[3], f))
    return f(v)


def atoms(v):
    return list(V.lin(v)[1]) if v[0] in ('lin', 'iv', 'bv', 'op', 'len') else []


def cb_(v):
    return None if v is None else V.cb(v)


def low(v):
    if v[0] == 'k':
        return v[1]
    if v[0] == 'ite':
        a, b = low(v[2]), low(v[3])
        return None if a is None or b is None else min(a, b)
    c, d = V.lin(v)
    for a, x in d.items():
        lo = V.krange(a)[0]
        if a[0] in ('len', 'iv', 'lv'):
            lo = 0
        if lo is None or x < 0:
            return None
        c += x * lo
    return c


def high(v):
    return v[1] if v[0] == 'k' else None
