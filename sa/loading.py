"""Typestate of loading one stored object: shared by C09, C11 and C13.

The loader is whatever function of the file class stores into the object cache after
decoding.  Its paths are walked with a state made of: decoding flag, cache lookup,
short-read check, decoder call and outcome, left-over check, cache store, id store."""
import ast
from .flow import Flow, show
from .load import Func, Class


def contains(d, pred):
    if not isinstance(d, tuple):
        return False
    if d and isinstance(d[0], str) and pred(d):
        return True
    return any(contains(x, pred) for x in d if isinstance(x, tuple))


def is_call_attr(d, *names):
    return d[0] == 'call' and d[1][0] == 'attr' and d[1][2] in names


def strip(d):
    while d[0] == 'local' and len(d) > 2:
        d = d[2]
    return d


def is_stream(d):
    """a local in-memory stream"""
    s = strip(d)
    return s[0] == 'call' and s[1][0] in ('ext', 'attr') and str(show(s[1])).split('.')[-1] == 'BytesIO'


def cache_attr(d):
    return d[0] == 'attr' and d[2] == 'object_cache'


def polarity(d, pred, full=False):
    """truth value under which the quantity recognised by pred is as expected (empty /
    equal); None if the test does not say.  full: the quantity is an amount that must
    reach the other side, else it is a rest that must be nothing"""
    s = strip(d)
    if s[0] == 'not':
        p = polarity(s[1], pred, full)
        return None if p is None else (not p)
    if s[0] == 'cmp':
        op, a, b = s[1], s[2], s[3]
        if not (contains(a, pred) or contains(b, pred)):
            return None
        if op in ('Eq', 'Is'):
            return True
        if op in ('NotEq', 'IsNot'):
            return False
        left = contains(a, pred)
        if op in ('Gt', 'Lt', 'GtE', 'LtE') and left != contains(b, pred):
            less = (op in ('Lt', 'LtE')) == left          # says that the quantity is less
            if full:
                return {'Lt': False, 'GtE': True}.get(op if left else {'Gt': 'Lt', 'LtE': 'GtE', 'Lt': 'Gt', 'GtE': 'LtE'}[op])
            return less
        return None
    if contains(s, pred):
        if s[0] == 'call' and (s[1] == ('builtin', 'len') or s[1][0] == 'attr'):
            return False        # truthy: something is left
        if s[0] == 'local':
            return False
    return None


class Loader(Flow):
    """state: (reading, look, short, dec, left, cached, idset)
    look: None | 'asked' | 'miss' | 'hit' | 'maybe'
    short: None | 'need' | 'ok' | 'bad' | 'unk'
    dec: None | 'py' | 'ext' | 'broken'
    left: None | 'ok' | 'bad' | 'unk'
    cached / idset: None | 'ok' | 'odd'"""
    START = (False, None, None, None, None, None, None)

    def __init__(self, prog, func, cls):
        self.findings = []
        self.unclear = []
        self.func = func
        self.counts = {'decoder calls': 0, 'cache stores': 0, 'exits': 0}
        a = [x.arg for x in func.node.args.args]
        self.index = ('param', a[1]) if len(a) > 1 else None
        self.streams = set()
        self.cachevar = None
        super().__init__(prog, self.on, opaque=self.op)
        self.out = self.run(func, {self.START}, cls=cls)

    def note(self, key, text, ev):
        self.findings.append((key, text, ev.where if ev is not None else self.func.where))

    def op(self, ev):
        return self.decoder(ev) is not None

    # -- what a call is ----------------------------------------------------
    def decoder(self, ev):
        if ev.kind != 'call':
            return None
        t = ev.target
        if contains(t, lambda d: d[0] == 'attr' and d[2] == 'fast_readers') and not (t[0] == 'attr' and t[2] in ('get', 'keys', 'items')):
            return 'ext'
        if t[0] == 'attr' and t[2] == 'read' and len(ev.args) == 1 and is_stream(ev.args[0]) and t[1] != ev.args[0]:
            return 'py'
        return None

    def emit_exc(self, ev, st):
        k = self.decoder(ev)
        if k:
            return set((r, lo, sh, 'broken', le, ca, i) for r, lo, sh, de, le, ca, i in st)
        return st

    # -- events ------------------------------------------------------------------
    def on(self, st, ev):
        reading, look, short, dec, left, cached, idset = st
        t = ev.target
        k = self.decoder(ev)
        if k:
            self.counts['decoder calls'] += 1
            if k == 'py':
                self.streams.add(ev.args[0])
            if reading is not True:
                self.note('not-reading', 'the decoder is called while the file does not know that it is reading, so the object comes out marked modified', ev)
            if short in ('need', 'bad'):
                self.note('short-read', 'the decoder is called although not all bytes of the record may have been read', ev)
            if look not in ('miss',):
                if look == 'maybe':
                    self.note('lookup-truth', 'a cached object that is an empty list or mapping counts as not cached and is decoded a second time', ev)
                elif look == 'asked':
                    self.unclear.append(('lookup', 'how the result of the cache lookup is used is not visible'))
                elif look in (None, 'hit'):
                    self.note('no-lookup', 'the record is decoded without looking for the object that is already loaded', ev)
            return [(reading, look, short, k, None, cached, idset)]
        if ev.kind == 'store':
            v = ev.value
            if t[0] == 'attr' and t[2] == 'reading':
                if v == ('const', True):
                    return [(True, look, short, dec, left, cached, idset)]
                if v == ('const', False):
                    return [(False, look, short, dec, left, cached, idset)]
                if contains(v, lambda d: d[0] == 'attr' and d[2] == 'reading'):
                    return [(False, look, short, dec, left, cached, idset)]      # restores a saved value
                return [('unk', look, short, dec, left, cached, idset)]
            if t[0] == 'idx' and cache_attr(t[1]):
                self.counts['cache stores'] += 1
                return [(reading, look, short, dec, left, self.check_cache(t[2], dec, left, ev), idset)]
            if t[0] == 'attr' and t[2] == 'instance_id':
                ok = 'ok' if self.same(v) else 'odd'
                if ok == 'odd' and v[0] in ('const', 'bin', 'attr'):
                    self.note('wrong-id', 'a loaded object gets the id %s instead of the number of its record' % show(v), ev)
                return [(reading, look, short, dec, left, cached, ok)]
            if t[0] == 'local' and v is not None:
                s = strip(v)
                if self.cache_get(s):
                    self.cachevar = t[1]
                    return [(reading, 'asked', short, dec, left, cached, idset)]
                if is_call_attr(s, 'readinto'):
                    return None
            return None
        if ev.kind == 'call':
            if t[0] == 'attr' and cache_attr(t[1]) and t[2] in ('setdefault', '__setitem__') and len(ev.args) == 2:
                self.counts['cache stores'] += 1
                return [(reading, look, short, dec, left, self.check_cache(ev.args[0], dec, left, ev), idset)]
            if t[0] == 'attr' and t[2] == 'readinto':
                return [(reading, look, 'need', dec, left, cached, idset)]
            if t[0] == 'attr' and t[2] == 'read' and len(ev.args) == 1 and ev.args[0][0] != 'const' and not is_stream(t[1]):
                return [(reading, look, 'need', dec, left, cached, idset)]
            if self.cache_get(('call', t, ev.args)):
                return [(reading, 'asked', short, dec, left, cached, idset)]
            return None
        if ev.kind == 'catch' and look in (None, 'asked') and dec is None:
            names = ev.target[1]
            if not names or any(n in ('KeyError', 'LookupError', 'Exception', 'BaseException') for n in names):
                return [(reading, 'miss', short, dec, left, cached, idset)]
            return None
        if ev.kind == 'test':
            s = strip(t)
            # cache lookup result
            r = self.lookup(t)
            if r is not None:
                on_true, on_false = r
                return [(reading, on_true if ev.truth else on_false, short, dec, left, cached, idset)]
            if s[0] == 'cmp' and s[1] in ('Eq', 'LtE') and s[2] == self.index and s[3] == ('const', 0) and ev.truth:
                return [(reading, 'null', short, dec, left, cached, idset)]
            if s[0] == 'cmp' and s[1] in ('NotEq', 'Gt') and s[2] == self.index and s[3] == ('const', 0) and not ev.truth:
                return [(reading, 'null', short, dec, left, cached, idset)]
            if s == self.index and not ev.truth:
                return [(reading, 'null', short, dec, left, cached, idset)]
            # short read
            if short == 'need' and dec is None:
                p = polarity(t, self.is_amount, True)
                if p is not None:
                    return [(reading, look, 'ok' if ev.truth == p else 'bad', dec, left, cached, idset)]
            if dec == 'py' and self.streams:
                m = lambda d: (is_call_attr(d, 'read', 'tell', 'getbuffer', 'peek') and d[1][1] in self.streams)
                if contains(t, m):
                    p = polarity(t, m, contains(t, lambda d: is_call_attr(d, 'tell') and d[1][1] in self.streams))
                    if p is None:
                        return [(reading, look, short, dec, 'unk', cached, idset)]
                    return [(reading, look, short, dec, 'ok' if ev.truth == p else 'bad', cached, idset)]
        if ev.kind == 'return' and cached is not None and ev.target == ('const', None) and not ev.frame.parent:
            self.note('loaded-not-returned', 'the object that was loaded is not what is returned', ev)
        if ev.kind == 'return' and dec is None:
            if look == 'hit' and ev.target != ('local', self.cachevar) and not self.cache_get(strip(ev.target)) \
                    and not (ev.target[0] == 'idx' and cache_attr(ev.target[1])) and ev.target[0] in ('const',):
                self.note('hit-not-returned', 'the object found in the cache is not what is returned', ev)
        return None

    def is_amount(self, d):
        if is_call_attr(d, 'readinto'):
            return True
        if d[0] == 'call' and d[1] == ('builtin', 'len') and len(d[2]) == 1:
            a = strip(d[2][0])
            return is_call_attr(a, 'read')
        return False

    def same(self, d):
        return d == self.index or strip(d) == self.index

    def cache_get(self, d):
        return d[0] == 'call' and d[1][0] == 'attr' and cache_attr(d[1][1]) and d[1][2] == 'get'

    def lookup(self, t):
        def var(d):
            return (d == ('local', self.cachevar) and self.cachevar) or self.cache_get(strip(d))
        if var(t):
            return ('hit', 'maybe')
        s = strip(t)
        if s[0] == 'cmp':
            a, b = s[2], s[3]
            if b == ('const', None) and var(a):
                if s[1] in ('IsNot', 'NotEq'):
                    return ('hit', 'miss')
                if s[1] in ('Is', 'Eq'):
                    return ('miss', 'hit')
            if s[1] == 'In' and cache_attr(b):
                return ('hit', 'miss')
            if s[1] == 'NotIn' and cache_attr(b):
                return ('miss', 'hit')
        return None

    def check_cache(self, key, dec, left, ev):
        if not self.same(key) and not (key[0] == 'attr' and key[2] == 'instance_id'):
            if key[0] in ('const', 'bin', 'attr'):
                self.note('wrong-cache-key', 'the loaded object is kept under %s instead of the number of its record' % show(key), ev)
            return 'odd'
        if dec is None:
            self.note('cached-early', 'the object is kept before it has been decoded, so a failing decoder leaves a half-read object behind', ev)
            return 'ok'
        if dec == 'broken':
            self.note('cached-broken', 'an object whose decoding failed is kept', ev)
            return 'ok'
        if dec == 'py' and left not in ('ok', 'unk'):
            self.note('cached-unchecked', 'the object is kept before checking that its record was used up', ev)
        return 'ok'


def loaders(prog):
    """entry functions that decode a record into the cache"""
    fc = prog.need_class('AVBFile')
    cand = []
    for f in prog.functions():
        if f.cls is None or f.kind != 'method' or f.name == '__init__':
            continue
        if not f.cls.is_subclass(fc.name):
            continue
        src = list(ast.walk(f.node))
        attrs = set(n.attr for n in src if isinstance(n, ast.Attribute))
        if 'object_cache' in attrs and attrs & {'__new__', 'AVBClaseID_dict', 'fast_readers', 'instance_id'}:
            cand.append(f)
    f = fc.find_method('read_object')
    if isinstance(f, Func) and f not in cand:
        cand.insert(0, f)
    runs = [Loader(prog, f, fc) for f in cand]
    inlined = set(q for r in runs for q in r.inlined)
    out = [r for r in runs if r.func.qual not in inlined or r.func.name == 'read_object']
    return [r for r in out if r.counts['decoder calls']]
