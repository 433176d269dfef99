"""C19: every kind declares exactly its properties."""
import ast
import builtins
import datetime
import importlib
import io
import uuid
from ..load import Func, Class, LIST_METHODS, DICT_METHODS
from ..shapes import Inst, K, Atom, Unknown
from .shapeutil import interp, empty_file, plain

PLAIN = set()
for t in (str, bytes, bytearray, int, float, list, tuple, dict, set, frozenset, type(None), type, io.BytesIO, io.BufferedReader, io.BufferedWriter, io.BufferedRandom, io.TextIOWrapper, uuid.UUID, datetime.datetime, datetime.timedelta,
          BaseException, OSError, memoryview, property, type(lambda: 0), type(importlib), importlib.import_module('collections').OrderedDict, type(i for i in ())):
    PLAIN.update(dir(t))
# Python 2 spellings of the same types
PLAIN.update(('iteritems', 'itervalues', 'iterkeys', 'has_key', 'next', 'message', 'func_name', 'im_func', 'im_self'))


def check(prog, rep, tier):
    rep.rule("The registration of every kind is interpreted: the names its instances accept must be those it declares and inherits, no more (a table shared with another kind) and no fewer. "
             "No class of a kind may leave instances an open dictionary, where an undeclared name would be kept but never saved. "
             "Every attribute of self and every constant name of self's property table that a method uses is resolved against the kinds that inherit the method: one that is set must exist in all of them, one that is read in at least one. A declared property must be taken by some code that saves. "
             "Every other attribute name in the package must exist on some class of the package, a module it imports or a built-in type.")
    rep.assume("Attributes of objects other than self are only resolved by name, their kind is not inferred.")
    s = interp(prog)
    kinds = [c for c, cid, kind in prog.registered()]
    accepted = {}
    for c in kinds:
        rep.count('object kinds')
        d = s.classattr(c, 'propertydefs_dict')
        if d is None and not prog.propertydefs(c):
            accepted[c] = set()
            continue
        if not isinstance(d, Inst) or d.dct is None or not all(isinstance(k, K) for k, v in d.dct.values()):
            rep.unclear(c.name, 'its table of accepted names cannot be followed: %r' % (d,))
            continue
        acc = {k.v for k, v in d.dct.values()}
        accepted[c] = acc
        decl = [n for n, *_ in prog.propertydefs(c)]
        rep.count('declared properties', len(decl))
        extra = acc - set(decl)
        if extra:
            who = sorted({k.name for k in kinds if k is not c and extra & {n for n, *_ in prog.propertydefs(k)}})
            rep.finding('leak/%s' % c.name, 'accepts %d properties it does not declare (%s%s), of %s' % (len(extra), ', '.join(sorted(extra)[:4]), '' if len(extra) < 5 else ', ...', ', '.join(who[:4])), c.where)
        for n in sorted(set(decl) - acc):
            rep.finding('missing/%s/%s' % (c.name, n), 'declares %s but does not accept it' % n, c.where)
        types = {}
        for n, t, *_ in prog.propertydefs(c):
            if n in types and types[n] != t:
                rep.finding('twice/%s/%s' % (c.name, n), 'declares %s as %s and as %s' % (n, types[n], t), c.where)
            types[n] = t
        for b in c.mro():
            if isinstance(b, Class):
                for n in b.assigns:
                    if n in acc:
                        rep.finding('hidden/%s/%s' % (c.name, n), 'property %s is hidden by the class attribute of that name: reading it never gives the stored value' % n, b.where)
                for n in list(b.getters) + list(b.methods):
                    if n in acc:
                        rep.finding('hidden/%s/%s' % (c.name, n), 'property %s is hidden by the method of that name: reading it never gives the stored value' % n, b.where)
                for n in slots(prog, b) or ():
                    if n in acc:
                        rep.finding('hidden/%s/%s' % (c.name, n), 'property %s has the name of an internal field' % n, b.where)
    for c in kinds:
        for b in c.mro():
            if isinstance(b, Class) and '__slots__' not in b.assigns:
                rep.finding('open/%s' % b.name, 'instances of %s keep any name that is assigned, but never save it (no __slots__ in %s)' % (c.name, b.name), b.where)
            elif isinstance(b, Class):
                sl = slots(prog, b)
                if sl is None:
                    rep.unclear(b.name, '__slots__ is not a constant')
                elif '__dict__' in sl:
                    rep.finding('open/%s' % b.name, 'instances of %s keep any name that is assigned, but never save it (__dict__ slot in %s)' % (c.name, b.name), b.where)
    assigned(prog, s, rep, accepted)
    selfs(prog, s, rep, kinds, accepted)
    unsaved(prog, rep, {c: k for c, _, k in prog.registered()})
    names(prog, rep, accepted)
    rep.need('object kinds', 40)
    rep.need('declared properties', 200)
    rep.need('accesses on self', 400)
    rep.need('other attribute names', 300)


def assigned(prog, s, rep, accepted):
    """assigning is interpreted: a declared name is kept where it is saved and read back, another one is not kept there"""
    root = empty_file(prog, s, rep)
    if root is None:
        return
    for c, acc in accepted.items():
        if not acc:
            continue
        for name in sorted(acc) + ['undeclared_name']:
            st = {}

            def act():
                st['o'] = o = plain(prog, s, root, c.name, 1)
                st['v'] = v = Atom('int', name)
                s.setattr(o, name, v)
                return s.getattr(o, name)
            rep.count('assignments interpreted')
            for kind, v, ch in s.runs(act, limit=8):
                if kind == 'stop' or s.unknowns or isinstance(v, Unknown):
                    rep.unclear(c.name, 'assigning %s: %s' % (name, v))
                    continue
                pd = st['o'].attrs.get('property_data')
                if not isinstance(pd, Inst) or pd.dct is None:
                    rep.unclear(c.name, 'no property table')
                    continue
                kept = s.key(K(name)) in pd.dct
                if name == 'undeclared_name':
                    if kept:
                        rep.finding('any/%s' % c.name, 'a name that is not declared is accepted as a property', c.where)
                elif kind == 'raise':
                    rep.finding('assign/%s/%s' % (c.name, name), 'assigning the declared property %s raises %s %s' % (name, v.name, v.text), c.where)
                elif not kept:
                    rep.finding('assign/%s/%s' % (c.name, name), 'the declared property %s is not kept among the properties when it is assigned' % name, c.where)
                elif v is not st['v']:
                    rep.finding('assign/%s/%s' % (c.name, name), 'the declared property %s does not read back as assigned' % name, c.where)


def unsaved(prog, rep, kinds):
    """declared properties that nothing takes for saving"""
    taken = {}

    def of(f):
        if f not in taken:
            out, dyn = set(), False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    out.add(n.attr)
                    if n.attr in ('propertydefs', 'propertydefs_dict', 'property_data'):
                        dyn = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1 and not isinstance(n.args[1], ast.Constant):
                    dyn = True
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(n.value)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and isinstance(prog.resolve_name(f.module, n.id), tuple):
                    # a module constant may list names
                    r = prog.resolve_name(f.module, n.id)
                    if r[0] == 'global':
                        for g in r[1].globals[r[2]]:
                            for x in ast.walk(g) if g is not None else ():
                                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                    out.add(x.value)
            taken[f] = (out, dyn)
        return taken[f]

    def saves(f):
        n = f.name
        return not (n.startswith(('read', '__', 'parse', 'load', 'decode')) or f.kind in ('getter', 'setter', 'deleter'))
    for c, kind in kinds.items():
        decl = [n for n, *_ in prog.propertydefs(c)]
        if not decl:
            continue
        mro = [b for b in c.mro() if isinstance(b, Class)]
        funcs = [f for b in mro if b.name != 'AVBObject' for f in class_funcs(b) if saves(f)]
        for m in {b.module.name: b.module for b in mro}.values():
            funcs += [f for f in m.funcs.values() if saves(f)]
            if kind != 'class':
                funcs += [f for b in m.classes.values() for f in class_funcs(b) if saves(f)]
            for b in m.classes.values():
                if b not in kinds:
                    funcs += [f for f in class_funcs(b) if saves(f)]
        got, dyn = set(), False
        for f in funcs:
            o, d = of(f)
            got |= o
            dyn |= d and any(w in f.name.lower() for w in ('write', 'save', 'encode', 'dump', 'put', 'emit', 'store'))
        for n in decl:
            rep.count('properties looked for in the writers')
            if n not in got:
                if dyn:
                    rep.unclear(c.name, 'property %s may be saved by a loop over the declarations' % n)
                else:
                    rep.finding('unsaved/%s/%s' % (c.name, n), 'declares %s, which can be set but which nothing saves' % n, c.where)


def slots(prog, b):
    a = b.assigns.get('__slots__')
    if a is None:
        return None
    try:
        v = prog.const(b.module, a)
    except ValueError:
        return None
    if isinstance(v, (str, bytes)):
        return (v,)
    try:
        return tuple(v)
    except TypeError:
        return None


def own_names(prog, c):
    """names instances of the class have without a property, None when open"""
    out = set(dir(object))
    for b in c.mro():
        if not isinstance(b, Class):
            t = b.split('.')[-1]
            x = getattr(builtins, t, None) or getattr(importlib.import_module('collections'), t, None)
            if t == 'object':
                continue
            if x is None:
                return None
            out.update(dir(x))
            continue
        out.update(b.methods)
        out.update(b.getters)
        out.update(b.setters)
        out.update(b.assigns)
        out.update(slots(prog, b) or ())
        if '__slots__' not in b.assigns:
            # what its methods set
            for f in class_funcs(b):
                me = first_arg(f)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
    return out


def class_funcs(b):
    seen = set()
    for d in (b.methods, b.getters, b.setters):
        for f in d.values():
            if f.cls is b and id(f.node) not in seen:
                seen.add(id(f.node))
                yield f


def first_arg(f):
    if f.kind in ('static', 'class'):
        return None
    a = f.node.args
    l = list(getattr(a, 'posonlyargs', [])) + list(a.args)
    return l[0].arg if l else None


def rebound(f, name):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
            a = n.args
            if name in [x.arg for x in a.args + a.kwonlyargs] or a.vararg and a.vararg.arg == name or a.kwarg and a.kwarg.arg == name:
                return True
    return False


def selfs(prog, s, rep, kinds, accepted):
    registered = {c for c, _, _ in prog.registered()}
    for b in prog.classes():
        users = [c for c in prog.classes() if b in c.mro() and (c in registered or not any(c in k.mro() for k in registered))]
        if not users:
            users = [b]
        have = {}
        for c in users:
            o = own_names(prog, c)
            if o is not None and c in kinds and c not in accepted:
                o = None
            if o is not None:
                o = o | accepted.get(c, set())
            have[c] = o
        if any(o is None for o in have.values()):
            rep.unclear(b.name, 'a base class is not known')
            continue
        for f in class_funcs(b):
            me = first_arg(f)
            if me is None or rebound(f, me):
                continue
            runs_on = [c for c in users if reaches(c, f)]
            for how, name, line in accesses(f.node, me):
                rep.count('accesses on self')
                where = '%s:%d' % (f.module.rel, line)
                lacks = [c for c in runs_on if name not in have[c]]
                if how == 'store':
                    # a computed property without a setter cannot be assigned
                    lacks += [c for c in runs_on if c not in lacks and name not in accepted.get(c, ()) and isinstance(c.find_property(name), Func) and not isinstance(c.find_setter(name), Func)]
                if not runs_on or not lacks:
                    continue
                if how == 'store' and any('__getattr__' in have[c] for c in lacks) or len(lacks) == len(runs_on):
                    if name.startswith('__') and name.endswith('__'):
                        continue
                    what = {'store': 'is set', 'load': 'is read', 'key': 'is looked up'}[how]
                    rep.finding('self/%s/%s' % (f.qual, name), '%s %s but %s declares no such property' % (name, what, lacks[0].name), where)


def reaches(c, f):
    """the method of class f.cls may run on an instance of c: no subclass in between replaces it without calling it"""
    for b in c.mro():
        if not isinstance(b, Class):
            return False
        if b is f.cls:
            return True
        m = b.methods.get(f.name) or b.getters.get(f.name)
        if m is not None and f.name not in b.setters and f.kind not in ('getter', 'setter'):
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for n in ast.walk(m.node)) and \
                    not any(isinstance(n, ast.Attribute) and n.attr == f.name and isinstance(n.value, ast.Name) and n.value.id != first_arg(m) for n in ast.walk(m.node)):
                return False
    return False


def accesses(node, me):
    """(store|load|key, name, line) on the object"""
    skip = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'setattr') and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and n.args[0].id == me \
                and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            yield ('store' if n.func.id == 'setattr' else 'load'), n.args[1].value, n.lineno
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                yield 'store', n.attr, n.lineno
            else:
                yield 'load', n.attr, n.lineno
        # self.property_data['x'], .get('x'), 'x' in self.property_data
        k = None
        if isinstance(n, ast.Subscript) and is_pd(n.value, me):
            k = n.slice
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop', 'setdefault') and is_pd(n.func.value, me) and n.args:
            k = n.args[0]
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and is_pd(n.comparators[0], me):
            k = n.left
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            yield 'key', k.value, n.lineno


def is_pd(n, me):
    return isinstance(n, ast.Attribute) and n.attr == 'property_data' and isinstance(n.value, ast.Name) and n.value.id == me


def names(prog, rep, accepted):
    """every attribute name exists somewhere"""
    known = set(PLAIN) | set(LIST_METHODS) | set(DICT_METHODS)
    ext = {}
    for m in prog.all_modules():
        if m.name.startswith('examples'):
            continue
        known.update(m.funcs)
        known.update(m.classes)
        known.update(m.globals)
        known.update(m.imports)
        for imp in m.imports.values():
            try:
                if imp[0] == 'mod':
                    if not imp[1].startswith('avb'):
                        x = importlib.import_module(imp[1])
                        known.update(dir(x))
                        ext[imp[1]] = x
                elif not imp[1].startswith('avb') and imp[1] != '__future__':
                    x = importlib.import_module(imp[1])
                    known.update(dir(getattr(x, imp[2], x)))
            except ImportError:
                pass
    for c in prog.classes():
        o = own_names(prog, c)
        known.update(o or ())
        for n, *_ in prog.propertydefs(c) if c in accepted else ():
            known.add(n)
    for m in prog.all_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') and isinstance(n.ctx, ast.Store)):
                rep.count('other attribute names')
                if n.attr not in known:
                    rep.finding('name/%s/%s' % (m.name, n.attr), 'no object of the package has an attribute %s' % n.attr, '%s:%d' % (m.rel, n.lineno))
