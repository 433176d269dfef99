"""C20: the fields of a mob id are views of its bytes."""
from ..bits import BitShapes, Bits, Text, Uuid, HashV, Hex, Poly, vague, source, source_bytes, blist
from ..load import Func
from ..shapes import Inst, K, NONE, Unknown, Atom, Stop, PyRaise, ClassV, Builtin

# name -> how a value of the field looks: bytes n, int n (bits), uuid
LEAVES = [('SMPTELabel', ('bytes', 12)), ('length', ('int', 8)), ('instanceHigh', ('int', 8)), ('instanceMid', ('int', 8)), ('instanceLow', ('int', 8)),
          ('Data1', ('int', 32)), ('Data2', ('int', 16)), ('Data3', ('int', 16)), ('Data4', ('bytes', 8))]
WHOLE = [('material', ('uuid', 16)), ('int', ('int', 256))]
PARTS = {'material': ('Data1', 'Data2', 'Data3', 'Data4'), 'int': tuple(n for n, _ in LEAVES)}


class Bad(Exception):
    def __init__(self, text):
        Exception.__init__(self, text)
        self.text = text


def check(prog, rep, tier):
    rep.rule("Every accessor, constructor and conversion of the mob id class is interpreted over bit provenance: the id is 256 named bits, and where each bit of a value set, got or printed comes from is followed exactly. "
             "Getter after setter must return the bits set, setter after getter must restore all bits, leaf fields must not touch each other and must cover all bits, and text, dict, integer, uuid and byte forms must convert back to the same bits. "
             "Tests on bits split the evaluation into all cases.")
    rep.assume("struct, uuid and int conversions behave as documented.")
    c = prog.need_class('MobID')
    s = BitShapes(prog)
    A = [b for x in source_bytes('id', 32) for b in x.bits]

    def make(src='id', kind='bytes'):
        return s.instantiate(c, [], {'bytes_le': blist(kind, source_bytes(src, 32))})

    def raw(m):
        bl = s.bytelist(s.getattr(m, 'bytes_le'))
        if len(bl) != 32:
            raise Bad('the id has %d bytes instead of 32' % len(bl))
        return [b for x in bl for b in x]

    def flat(v, shape):
        """bits of a field value"""
        if isinstance(v, (Unknown, Atom)):
            raise Stop('value %r' % (v,))
        if shape[0] == 'int':
            b = s.bits(v)
            if b is None:
                raise Bad('is not a number')
            if len(b) > shape[1]:
                if any(vague(x) for x in b[shape[1]:]):
                    b = b[:shape[1]] if not any(x != 0 and not vague(x) for x in b[shape[1]:]) else b
            if len(b) > shape[1]:
                raise Bad('has %d bits instead of %d' % (len(b), shape[1]))
            return list(b) + [0] * (shape[1] - len(b))
        if shape[0] == 'uuid':
            if not isinstance(v, Uuid):
                raise Bad('is not a UUID')
            return [b for x in v.be for b in s.byte(x)]
        bl = s.bytelist(v)
        if len(bl) != shape[1]:
            raise Bad('has %d bytes instead of %d' % (len(bl), shape[1]))
        return [b for x in bl for b in x]

    def value(shape, form):
        if shape[0] == 'int':
            return source('new', shape[1])
        if shape[0] == 'uuid':
            return Uuid(source_bytes('new', 16))
        return blist(form, source_bytes('new', shape[1]))

    def same(got, want, what):
        lost = False
        for i, (x, y) in enumerate(zip(got, want)):
            if s.nb(x) != s.nb(y):
                if vague(s.nb(x)) or vague(s.nb(y)):
                    lost = True
                    continue
                if s.negs and (isinstance(s.nb(x), Poly) or isinstance(s.nb(y), Poly)):
                    raise Stop('computed bits under excluded cases')
                raise Bad('%s: bit %d is %s, not %s' % (what, i, name(s.nb(x)), name(s.nb(y))))
        if lost:
            raise Stop('%s: arithmetic on bits is not followed' % what)

    def decide(key, title, act, where):
        """act() in every case; the first case that is wrong is reported"""
        rep.count('obligations')
        for kind, v, ch in s.bruns(lambda: guarded(act)):
            rep.count('cases evaluated')
            wit = ''
            if kind == 'ok' and isinstance(v, Bad) or kind == 'raise':
                if s_unknown(s):
                    rep.unclear(key, 'depends on %s' % s_unknown(s))
                    continue
                # the facts of this case are gone; they are kept by guarded()
                wit = witness.get('id')
                if wit is None and witness.get('tried'):
                    continue
            if kind == 'stop':
                rep.unclear(key, str(v))
            elif kind == 'raise':
                rep.finding(key + '/raises ' + v.name, '%s raises %s %s%s' % (title, v.name, v.text, wit and ' for id %s' % wit or ''), where)
            elif isinstance(v, Bad):
                rep.finding(key + case(wit), '%s: %s%s' % (title, v.text, wit and ' (for example id %s)' % wit or ''), where)
            elif s_unknown(s):
                rep.unclear(key, 'depends on %s' % s_unknown(s))

    witness = {}

    def guarded(act):
        witness.clear()
        try:
            act()
            return None
        except Bad as e:
            note()
            return e
        except PyRaise:
            note()
            raise

    def note():
        w = s.witness(A)
        witness['tried'] = True
        if w is not None:
            witness['id'] = ''.join('%02x' % sum(w[8 * i + j] << j for j in range(8)) for i in range(32))

    # -- fields ------------------------------------------------------------------------
    fields = []
    for n, shape in LEAVES + WHOLE:
        g, st = c.find_property(n), c.find_setter(n)
        if not isinstance(g, Func) or not isinstance(st, Func):
            if n in c.slots() if hasattr(c, 'slots') else False:
                continue
            rep.unclear(n, 'is not a property with getter and setter')
            continue
        rep.count('fields')
        fields.append((n, shape, g, st))
    leaves = [f for f in fields if f[0] in dict(LEAVES)]
    got_bits = {}
    for n, shape, g, st in fields:
        forms = ['bytes', 'list', 'bytearray'] if shape[0] == 'bytes' else ['']
        for form in forms:
            def get_after_set():
                m = make()
                v = value(shape, form)
                s.setattr(m, n, v)
                raw(m)
                same(flat(s.getattr(m, n), shape), flat(value(shape, form), shape), 'reading %s after setting it' % n)
            decide('get-set/%s' % n, 'setting and reading %s' % n, get_after_set, st.where)

        def set_after_get():
            m = make()
            s.setattr(m, n, s.getattr(m, n))
            same(raw(m), A, 'setting %s to its own value' % n)
        decide('set-get/%s' % n, 'setting %s to what it reads' % n, set_after_get, st.where)

        def pure():
            m = make()
            v = s.getattr(m, n)
            got_bits[n] = set(flat(v, shape))
            same(raw(m), A, 'reading %s' % n)
            if isinstance(v, Inst) and v is m.attrs.get('bytes_le'):
                raise Bad('reading %s hands out the bytes of the id' % n)
        decide('read/%s' % n, 'reading %s' % n, pure, g.where)

        def others():
            m = make()
            keep = [(o, sh, flat(s.getattr(m, o), sh)) for o, sh, _, _ in leaves if o != n and o not in PARTS.get(n, ())]
            s.setattr(m, n, value(shape, forms[0]))
            for o, sh, was in keep:
                same(flat(s.getattr(m, o), sh), was, '%s after setting %s' % (o, n))
        decide('independent/%s' % n, 'setting %s' % n, others, st.where)
    if len(leaves) == len(LEAVES) and all(n in got_bits for n, _, _, _ in leaves):
        cov = set()
        for n, _, _, _ in leaves:
            dup = cov & got_bits[n] - {0, 1}
            if dup:
                rep.finding('overlap/%s' % n, '%s reads bits another field reads: %s' % (n, name(sorted(dup)[0])), c.where)
            cov |= got_bits[n]
        for b in A:
            if b not in cov:
                rep.finding('coverage', 'no field reads %s' % name(b), c.where)
                break

    # -- material and its parts -----------------------------------------------------------
    def parts():
        m = make()
        u = s.getattr(m, 'material')
        if not isinstance(u, Uuid):
            raise Bad('material is not a UUID')
        for part, attr in (('Data1', 'time_low'), ('Data2', 'time_mid'), ('Data3', 'time_hi_version')):
            sh = dict(LEAVES)[part]
            same(flat(s.getattr(m, part), sh), flat(s.getattr(u, attr), sh), '%s against material.%s' % (part, attr))
        same(flat(s.getattr(m, 'Data4'), ('bytes', 8)), [b for x in u.be[8:] for b in s.byte(x)], 'Data4 against material')
    decide('parts/material', 'material and its parts', parts, c.where)

    # -- constructors ------------------------------------------------------------------------
    for kind in ('bytes', 'bytearray'):
        def from_bytes():
            buf = blist(kind, source_bytes('id', 32))
            m = s.instantiate(c, [], {'bytes_le': buf})
            same(raw(m), A, 'bytes of MobID(bytes_le=)')
            if kind == 'bytearray' and any(v is buf for v in m.attrs.values()):
                raise Bad('the id shares the buffer it was made from')
        decide('new/bytes_le/%s' % kind, 'MobID(bytes_le=%s)' % kind, from_bytes, c.where)

    def from_int():
        v = source('new', 256)
        m = s.instantiate(c, [], {'int': v})
        same(flat(s.getattr(m, 'int'), ('int', 256)), v.bits, 'MobID(int=).int')
        m = make()
        same(flat(s.builtin('int', [m], {}, None, None), ('int', 256)), flat(s.getattr(m, 'int'), ('int', 256)), 'int(id) against id.int')
        m2 = s.instantiate(c, [], {'int': s.getattr(m, 'int')})
        same(raw(m2), A, 'MobID(int=id.int)')
    decide('new/int', 'MobID(int=)', from_int, c.where)

    def empty():
        same(raw(s.instantiate(c, [], {})), [0] * 256, 'MobID()')
    decide('new/empty', 'MobID()', empty, c.where)

    # -- text ----------------------------------------------------------------------------------
    def text_of(m, how):
        t = s.getattr(m, 'urn') if how == 'urn' else s.builtin(how, [m], {}, None, None)
        if s.text(t) is None:
            raise Stop('text %r' % (t,))
        return t

    def via_text(ctor, upper):
        def act():
            m = make()
            t = text_of(m, 'urn')
            if upper:
                t = s.bound(t, 'upper', [], {})
            if ctor:
                m2 = s.instantiate(c, [t], {})
            else:
                m2 = make('other')
                s.setattr(m2, 'urn', t)
            same(raw(m2), A, 'id made from the text of an id')
        return act
    u = c.find_setter('urn')
    w = u.where if isinstance(u, Func) else c.where
    decide('text', 'id to text and back', via_text(True, False), w)
    decide('text', 'id to text and back', via_text(False, False), w)
    decide('text-upper', 'id to upper case text and back', via_text(False, True), w)

    def texts():
        m = make()
        a = s.text(text_of(m, 'urn'))
        for how in ('str', 'repr'):
            b = s.text(text_of(m, how))
            if len(a) != len(b) or any((x.bits if isinstance(x, Hex) else x) != (y.bits if isinstance(y, Hex) else y) for x, y in zip(a, b)):
                raise Bad('%s() is not the urn' % how)
        same(raw(m), A, 'printing an id')
    decide('text-forms', 'str, repr and urn', texts, c.where)

    # -- dict -----------------------------------------------------------------------------------
    def via_dict():
        m = make()
        d = s.call(s.getattr(m, 'to_dict'), [], {})
        same(raw(m), A, 'to_dict')
        for src in (None, 'other'):
            m2 = s.instantiate(c, [], {}) if src is None else make(src)
            s.call(s.getattr(m2, 'from_dict'), [d], {})
            same(raw(m2), A, 'id made from the dict of an id')
        if isinstance(d, Inst) and d.dct is not None:
            mat = d.dct.get(s.key(K('material')))
            for src_d, names in ((d, [n for n, _ in LEAVES]), (mat[1] if mat else None, PARTS['material'])):
                if not (isinstance(src_d, Inst) and src_d.dct is not None):
                    continue
                for n in names:
                    x = src_d.dct.get(s.key(K(n)))
                    if x is not None:
                        sh = dict(LEAVES)[n]
                        same(flat(x[1], sh), flat(s.getattr(m, n), sh), 'dict entry %s' % n)
    decide('dict', 'id to dict and back', via_dict, c.where)

    # -- comparison --------------------------------------------------------------------------------
    def equality(op):
        def act():
            m, n = make('id'), make('other')
            r = s.truth(s.call(s.getattr(m, '__%s__' % op), [n], {})) if isinstance(c.find_method('__%s__' % op), Func) else (s.equal(m, n) == (op == 'eq'))
            if op == 'ne':
                r = not r
            a, b = raw(m), raw(n)
            if r:
                same(a, b, 'ids that compare equal')
            else:
                # must be impossible when all bytes agree
                from ..bits import Infeasible
                keep, negs = dict(s.same_as), list(s.negs)
                try:
                    for x, y in zip(a, b):
                        s.unify(x, y)
                    s.settle()
                    bad = True
                except Infeasible:
                    bad = False
                s.same_as, s.negs = keep, negs
                if bad:
                    raise Bad('ids with the same bytes compare unequal')
        return act
    for op in ('eq', 'ne'):
        m = c.find_method('__%s__' % op)
        decide('compare/%s' % op, '__%s__' % op, equality(op), m.where if isinstance(m, Func) else c.where)

    def hashing():
        h = s.builtin_hash(make()) if hasattr(s, 'builtin_hash') else s.call_func(c.find_method('__hash__'), [make()], {})
        if not isinstance(h, HashV):
            b = s.bits(h)
            if b is None:
                raise Stop('hash %r' % (h,))
            return
        check_payload(h.payload)

    def check_payload(p):
        if isinstance(p, HashV):
            return check_payload(p.payload)
        if isinstance(p, (Bits, Text, Uuid)) or isinstance(p, K) and not (isinstance(p.v, tuple) and p.v[:1] == ('id',)):
            return
        if isinstance(p, Inst) and p.lst is not None and p.kind in ('bytes', 'tuple'):
            for x in p.lst:
                check_payload(x)
            return
        if isinstance(p, Inst) and p.kind in ('bytearray', 'list', 'dict', 'set'):
            raise Bad('hashes an unhashable %s' % p.kind)
        if isinstance(p, Inst):
            raise Bad('depends on the identity of an object, not on the bytes')
        if isinstance(p, K):
            raise Bad('depends on the identity of an object, not on the bytes')
        raise Stop('hash of %r' % (p,))
    h = c.find_method('__hash__')
    if isinstance(h, Func) and h.cls is c:
        decide('compare/hash', '__hash__', hashing, h.where)
    elif isinstance(c.find_method('__eq__'), Func):
        rep.finding('compare/hash', 'the class defines equality but no hash', c.where)

    ORDER = {'lt': (False, True), 'gt': (True, True), 'le': (True, False), 'ge': (False, False)}   # (arguments swapped, sign) of the strict order
    seen = {}
    for op, (swap, sign) in ORDER.items():
        f = c.find_method('__%s__' % op)
        if not isinstance(f, Func):
            continue

        def ordering():
            m, n = make('id'), make('other')
            r = s.truth(s.call(s.getattr(m, '__%s__' % op), [n], {}))
            lts = [(k, v) for k, v in s.taken if k[0] == 'lt']
            if s.negs or s.same_as or len(lts) != 1 or len(s.taken) != len(lts):
                raise Stop('order is not one comparison')
            (_, x, y), v = lts[0]
            if any(isinstance(b, Poly) or vague(b) for b in x + y):
                raise Stop('order of computed values')
            src = {b[0] for b in x if b not in (0, 1)}, {b[0] for b in y if b not in (0, 1)}
            if src == ({'id'}, {'other'}):
                first = 'id'
            elif src == ({'other'}, {'id'}):
                first = 'other'
            else:
                raise Bad('__%s__ does not compare the two ids' % op)
            want = ('other' if swap else 'id', sign)
            if [b[1] for b in x] != [b[1] for b in y] or len(set(b for b in x)) != 256:
                raise Bad('__%s__ does not compare all bytes of both ids in the same order' % op)
            seen.setdefault(tuple(b[1] for b in x), []).append(op)
            if first != want[0]:
                raise Bad('__%s__ compares the wrong way round' % op)
            if r != (v == sign):
                raise Bad('__%s__ is %s when the %s' % (op, r, 'first is less' if v else 'first is not less'))
        decide('order/%s' % op, '__%s__' % op, ordering, f.where)
    if len(seen) > 1:
        rep.finding('order', 'the order operators compare the bytes in different order: %s' % ' / '.join(' '.join(sorted(set(v))) for v in seen.values()), c.where)

    # -- new ids ---------------------------------------------------------------------------------------
    new = c.find_method('new')
    if isinstance(new, Func):
        def fresh():
            m = s.call(s.getattr(ClassV(c), 'new'), [], {})
            bits = raw(m)
            have = {b for b in bits if b not in (0, 1)}
            if len(have) < 1 or len(have) < 128:
                raise Bad('a new id holds only %d bits of a random uuid' % len(have))
            n = s.call(s.getattr(ClassV(c), 'new'), [], {})
            if have & {b for b in raw(n) if b not in (0, 1)}:
                raise Bad('two new ids share their random part')
            sh = ('bytes', 12)
            if not any(b == 1 for b in flat(s.getattr(m, 'SMPTELabel'), sh)) or s.bits(s.getattr(m, 'length')) != s.bits(K(0x13)):
                raise Bad('a new id has no label or not the length of a basic id')
        decide('new/random', 'MobID.new()', fresh, new.where)
    rep.need('fields', 8)
    rep.need('obligations', 30)


def s_unknown(s):
    return s.unknowns[0] if s.unknowns else None


def name(b):
    if b in (0, 1):
        return 'constant %d' % b
    if isinstance(b, Poly):
        return repr(b)
    return 'bit %d of byte %d of %s' % (b[1] % 8, b[1] // 8, {'id': 'the id', 'new': 'the value set', 'other': 'the other id'}.get(b[0], b[0]))


def case(wit):
    """the known ambiguous family is named, so that any other failing id is a different finding"""
    if not wit:
        return ''
    b = bytes.fromhex(wit)
    if b[11] == 0 and b[16:22] == bytes.fromhex('342b0e067f7f') and b[24:30] != bytes.fromhex('060e2b347f7f'):
        return '/Data1 060e2b34 Data2 7f7f label byte 11 zero'
    return ''
