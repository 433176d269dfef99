"""C23: no statement trips over a name, a local variable, a module member, an argument list or a message of its own."""
import ast
import builtins
import importlib
import string
from ..load import Func, Class, Module, dotted
from ..wellformed import Scopes, Assigned, NO_RETURN, no_return

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__qualname__', '__module__', '__class__'}
# exist in Python 2 only
OLD = {'unicode', 'long', 'basestring', 'xrange', 'raw_input', 'unichr', 'reduce', 'file', 'cmp', 'buffer', 'execfile', 'reload', 'intern', 'coerce', 'apply'}


def check(prog, rep, tier):
    rep.rule("Every name read in every scope must be bound in it, around it, in its module or be a built-in (Python 2 only names only where a test of the version or a caught NameError keeps Python 3 away). "
             "On every path through a function a local variable must be set before it is read; paths are told apart by the tests they made. "
             "A member of an imported module, an attribute of the object a method runs on or has just made, and a method of the reading and writing contexts must exist, and calls of known functions must fit their parameters. "
             "An error object must be raised, not made and dropped; a raised object must be an error; a message must take as many values as it is given. "
             "Special methods and the value readers of the contexts that give a value on one path must end in a value or an error on every path. "
             "A chain of branches that tells the values of one subject apart by constants and acts on it must end in an else branch, unless the others were turned away or given a default before, or are dealt with after it.")
    rep.assume("A loop over a sequence that is not a constant may run no time or several times; whether it can run no time is not decided, so a variable only set in it counts as undecided.")
    mods = [m for m in prog.all_modules() if not m.name.startswith('examples')]
    errors = error_classes(prog)
    known = Names(prog)
    never_return(prog)
    for m in mods:
        sc = Scopes(m.tree, BUILTINS, OLD)
        rep.count('names resolved', sc.resolved)
        for name, line, qual in sc.undefined:
            rep.finding('name/%s.%s/%s' % (m.name, qual, name), 'name %s is not defined' % name, '%s:%d' % (m.rel, line))
        for qual, node in sc.functions:
            rep.count('functions checked')
            a = Assigned(node)
            a.run()
            rep.count('local reads checked', a.reads)
            for name, line in sorted(a.bad.items()):
                rep.finding('unset/%s.%s/%s' % (m.name, qual, name), 'local variable %s is not set on every path that reads it here' % name, '%s:%d' % (m.rel, line))
            for name, line in sorted(a.maybe.items()):
                rep.unclear('%s.%s' % (m.name, qual), 'variable %s is set only in a loop (line %d)' % (name, line))
            if a.gave_up:
                rep.unclear('%s.%s' % (m.name, qual), 'too many paths')
        dropped(prog, m, rep, errors)
        members(prog, m, rep)
        attributes(prog, m, rep, known)
        calls(prog, m, rep)
        messages(m, rep)
        chains(prog, m, rep)
        results(prog, m, rep)
    rep.need('functions checked', 300)
    rep.need('names resolved', 5000)
    rep.need('local reads checked', 5000)
    rep.need('error objects checked', 50)
    rep.need('module members checked', 30)
    rep.need('context calls checked', 1000)
    rep.need('calls checked', 300)
    rep.need('attributes checked', 2000)
    rep.need('messages checked', 20)
    rep.need('results checked', 10)
    rep.need('value chains checked', 10)


def error_classes(prog):
    out = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
    for c in prog.classes():
        if any(isinstance(b, str) and b.split('.')[-1] in out for b in c.mro()):
            out.add(c.name)
    return out


def qual_of(m):
    """{node: qualified name of the function around it}"""
    out = {}

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            q2 = q
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q2 = q + [c.name]
            out[c] = '.'.join(q2) or '<module>'
            walk(c, q2)
    walk(m.tree, [])
    return out


def dropped(prog, m, rep, errors):
    quals = qual_of(m)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Expr):
            v = n.value
            c = v.func if isinstance(v, ast.Call) else v
            if isinstance(c, ast.Name) and c.id in errors:
                rep.count('error objects checked')
                rep.finding('dropped/%s.%s/%s' % (m.name, quals[n], c.id), 'the %s is made but not raised' % c.id, '%s:%d' % (m.rel, n.lineno))
        elif isinstance(n, ast.Raise) and n.exc is not None:
            rep.count('error objects checked')
            v = n.exc
            bad = None
            if isinstance(v, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Tuple, ast.List, ast.Dict)):
                bad = 'a %s' % type(v).__name__.lower()
            c = v.func if isinstance(v, ast.Call) else v
            if isinstance(c, ast.Name):
                if c.id == 'NotImplemented':
                    bad = 'NotImplemented'
                elif c.id in dir(builtins) and c.id not in errors:
                    bad = c.id
                r = prog.resolve_name(m, c.id)
                if isinstance(r, Class) and r.name not in errors and all(isinstance(b, Class) or b == 'object' for b in r.mro()):
                    bad = r.name
            if bad:
                rep.finding('raised/%s.%s/%s' % (m.name, quals[n], bad), '%s is raised, which is not an error' % bad, '%s:%d' % (m.rel, n.lineno))
        elif isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in errors:
                rep.finding('returned/%s.%s/%s' % (m.name, quals[n], v.func.id), 'the %s is returned, not raised' % v.func.id, '%s:%d' % (m.rel, n.lineno))
        elif isinstance(n, ast.Assert) and isinstance(n.test, ast.Tuple) and n.test.elts:
            rep.finding('assert/%s.%s' % (m.name, quals[n]), 'the assertion of a tuple always holds', '%s:%d' % (m.rel, n.lineno))
        elif isinstance(n, ast.Try):
            # a raise in the body is caught by a handler of the same try that does nothing
            for h in n.handlers:
                if all(isinstance(x, ast.Pass) for x in h.body) and (h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')):
                    rs = [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Raise)]
                    if rs:
                        rep.finding('swallowed/%s.%s' % (m.name, quals[n]), 'the error raised here is dropped by the handler at line %d' % h.lineno, '%s:%d' % (m.rel, rs[0].lineno))


def local_names(m, quals):
    out = {}
    for n, q in quals.items():
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.setdefault(q, set()).add(n.id)
        elif isinstance(n, ast.arg):
            out.setdefault(q, set()).add(n.arg)
    return out


def members(prog, m, rep):
    quals = qual_of(m)
    loc = local_names(m, quals)
    ctx = [prog.find_class('AVBIOContext')]
    ctx = [c for c in ctx if c is not None]
    ctxvars = context_vars(m, quals)
    ctxnames = {}
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
            continue
        q = quals.get(n, '')
        b = n.value
        if isinstance(b, ast.Name) and any(b.id in loc.get(q[:i] if i >= 0 else q, ()) for i in [-1] + [k for k, ch in enumerate(q) if ch == '.']) and (q, b.id) not in ctxvars:
            continue
        where = '%s:%d' % (m.rel, n.lineno)
        if isinstance(b, ast.Name) and (q, b.id) in ctxvars or is_ctx(b):
            for c in ctx:
                rep.count('context calls checked')
                if c not in ctxnames:
                    ctxnames[c] = names_of(c)
                names = ctxnames[c]
                if names is None:
                    rep.unclear(c.name, 'its methods are made dynamically')
                elif n.attr not in names:
                    rep.finding('member/%s.%s/%s' % (m.name, q, n.attr), 'the context has no %s' % n.attr, where)
            continue
        r = prog.resolve_expr(m, b) if isinstance(b, (ast.Name, ast.Attribute)) else None
        if isinstance(r, Module):
            rep.count('module members checked')
            if prog.resolve_name(r, n.attr) is None and r.name + '.' + n.attr not in prog.modules:
                rep.finding('member/%s.%s/%s.%s' % (m.name, q, r.name, n.attr), 'module %s has no %s' % (r.name, n.attr), where)
        elif isinstance(r, tuple) and r[0] == 'extmod':
            try:
                x = importlib.import_module(r[1])
            except ImportError:
                continue
            rep.count('module members checked')
            if not hasattr(x, n.attr):
                try:
                    importlib.import_module(r[1] + '.' + n.attr)
                except ImportError:
                    rep.finding('member/%s.%s/%s.%s' % (m.name, q, r[1], n.attr), 'module %s has no %s' % (r[1], n.attr), where)
    # from x import y
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and n.level:
            base = prog.modules.get('avb' + ('.' + n.module if n.module else ''))
            for a in n.names:
                if base is not None and a.name != '*':
                    rep.count('module members checked')
                    if prog.resolve_name(base, a.name) is None and base.name + '.' + a.name not in prog.modules and not in_try(m, n) and a.name != '_ext':
                        rep.finding('import/%s/%s' % (m.name, a.name), 'module %s has no %s' % (base.name, a.name), '%s:%d' % (m.rel, n.lineno))


def names_of(c):
    """names a context has, None when open"""
    names = set()
    for k in c.mro():
        if isinstance(k, Class):
            names |= set(k.methods) | set(k.getters) | set(k.assigns)
            for f in k.methods.values():
                names |= {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
                # methods installed by name
                names |= {x.args[1].value for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and not isinstance(x.args[1], ast.Constant) for x in ast.walk(f.node)) or '__getattr__' in k.methods:
                    names = None
                    break
        if names is None:
            break
    return names


def in_try(m, node):
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(x is node for s in t.body for x in ast.walk(s)):
            return True
    return False


def is_ctx(b):
    return isinstance(b, ast.Attribute) and b.attr in ('ictx', 'octx')


def context_vars(m, quals):
    """{(function, variable)} that only ever holds a context"""
    good, bad = set(), set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    v = n.value
                    (good if is_ctx(v) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'AVBIOContext' else bad).add((quals[n], t.id))
        elif isinstance(n, ast.arg) and n in quals:
            bad.add((quals[n], n.arg))
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    bad.add((quals.get(n, ''), x.id))
    return good - bad


class Names(object):
    """attribute names by class"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.subs = {}
        for c in prog.classes():
            for b in c.mro():
                if isinstance(b, Class):
                    self.subs.setdefault(b, []).append(c)
        self.every = set()
        for n in dir(builtins):
            x = getattr(builtins, n)
            self.every |= set(dir(x))
        for m in prog.all_modules():
            for n in ast.walk(m.tree):
                for a in n.names if isinstance(n, ast.Import) else []:
                    self.outside(a.name)
                if isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    self.outside(n.module)
                if isinstance(n, ast.FunctionDef) or isinstance(n, ast.ClassDef):
                    self.every.add(n.name)
                if isinstance(n, ast.Call) and dotted(n.func) in ('setattr', 'namedtuple', 'collections.namedtuple'):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            self.every.update(x.value.replace(',', ' ').split())
            self.every |= set(m.globals) | set(m.funcs) | set(m.classes)
        for c in prog.classes():
            k, open_ = self.of(c)
            self.every |= k
        # 2to3 leftovers that are tested for
        self.every |= {'iteritems', 'itervalues', 'iterkeys', 'has_key', 'next', 'version_info', 'bytes_le', 'bytes'}

    def outside(self, name):
        if name.split('.')[0] == 'avb':
            return
        try:
            x = importlib.import_module(name)
        except Exception:
            return
        self.every |= set(dir(x))
        for n in dir(x):
            y = getattr(x, n, None)
            if isinstance(y, type):
                self.every |= set(dir(y))
                self.every |= set(getattr(y, '_fields', ()))

    def slots(self, c):
        r = c.assigns.get('__slots__')
        if r is None:
            return None
        try:
            v = self.prog.const(c.module, r)
        except ValueError:
            return None
        return {v} if isinstance(v, str) else set(v)

    def of(self, c):
        """(names, open): names its instances have; open when others can be stored"""
        if c in self.memo:
            return self.memo[c]
        names, open_ = set(), False
        for k in c.mro():
            if not isinstance(k, Class):
                x = getattr(builtins, k.split('.')[-1], None)
                if x is None:
                    import collections
                    x = getattr(collections, k.split('.')[-1], None)
                if x is None:
                    open_ = None
                else:
                    names |= set(dir(x))
                continue
            names |= set(k.methods) | set(k.getters) | set(k.setters) | set(k.assigns) | {x for x in k.module.classes if False}
            names |= {n.name for n in k.node.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))}
            sl = self.slots(k)
            if sl is None:
                open_ = open_ if open_ is None else True
                if '__slots__' in k.assigns:
                    open_ = None
            else:
                names |= sl
            if k.decorators and any(d not in ('register_class', 'utils.register_class') and 'register' not in d for d in k.decorators):
                open_ = None
        try:
            names |= {p[0] for p in self.prog.propertydefs(c)}
        except Exception:
            open_ = None
        names |= {'__class__', '__dict__', '__weakref__', '__name__', '__module__', '__qualname__'} | set(dir(object))
        if open_:
            for k in c.mro():
                if isinstance(k, Class):
                    names |= {x.attr for f in list(k.methods.values()) + list(k.setters.values()) for x in ast.walk(f.node)
                              if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        if any(isinstance(k, Class) and any(isinstance(x, ast.Call) and dotted(x.func) == 'setattr' for x in ast.walk(k.node)) for k in c.mro()):
            open_ = None
        self.memo[c] = names, open_
        return self.memo[c]

    def family(self, c):
        names, o = set(), False
        for k in self.subs.get(c, [c]):
            n, o2 = self.of(k)
            names |= n
            o = None if o is None or o2 is None else (o or o2)
        return names, o


def made_of(prog, m, node, classes):
    """class of the object a call makes, as the readers write it"""
    if not isinstance(node, ast.Call):
        return None
    f = node.func
    if isinstance(f, ast.Attribute) and f.attr == '__new__':
        r = prog.resolve_expr(m, f.value)
        return r if isinstance(r, Class) else None
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and f.value.attr == 'create':
        c = prog.find_class(f.attr)
        return c
    r = prog.resolve_expr(m, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
    return r if isinstance(r, Class) else None


def attributes(prog, m, rep, known):
    quals = qual_of(m)
    for fn in ast.walk(m.tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        owner = None
        for c in m.classes.values():
            if fn in c.node.body:
                owner = c
        types = {}
        params = [x.arg for x in fn.args.args]
        if owner is not None and params and not any(dotted(d) in ('staticmethod', 'classmethod') for d in fn.decorator_list) and fn.name != '__new__':
            types[params[0]] = owner
        stores, values = {}, {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(x, ast.arg) and x.arg in types and x not in fn.args.args:
                stores[x.arg] = 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                values.setdefault(x.targets[0].id, []).append(made_of(prog, m, x.value, None))
        for n in list(types):
            if stores.get(n):
                del types[n]
        exact = {}
        for n, vs in values.items():
            if n not in params and len(vs) == stores[n] and vs[0] is not None and all(v is vs[0] for v in vs):
                exact[n] = vs[0]
        for x in ast.walk(fn):
            if not isinstance(x, ast.Attribute):
                continue
            where = '%s:%d' % (m.rel, x.lineno)
            key = 'attribute/%s.%s/%s' % (m.name, quals[x], x.attr)
            b = x.value
            c = None
            if isinstance(b, ast.Name) and b.id in types:
                c = types[b.id]
                names, open_ = known.family(c)
            elif isinstance(b, ast.Name) and b.id in exact:
                c = exact[b.id]
                names, open_ = known.of(c)
            if c is not None and open_ is not None:
                if isinstance(x.ctx, ast.Store) and open_:
                    continue
                rep.count('attributes checked')
                if x.attr not in names and not guarded(fn, x):
                    rep.finding(key, '%s objects have no %s' % (c.name, x.attr), where)
            elif isinstance(x.ctx, ast.Load):
                rep.count('attributes checked')
                if x.attr not in known.every and not guarded(fn, x):
                    rep.finding(key, 'nothing has an attribute %s' % x.attr, where)


def guarded(fn, node):
    """in a try that catches the missing attribute, or under a hasattr test"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(y is node for s in t.body for y in ast.walk(s)):
            for h in t.handlers:
                if h.type is None or any(isinstance(y, ast.Name) and y.id in ('AttributeError', 'Exception', 'BaseException') for y in ast.walk(h.type)):
                    return True
        if isinstance(t, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Call) and dotted(y.func) == 'hasattr' for y in ast.walk(t.test)) and any(y is node for y in ast.walk(t)):
            return True
    return False


def calls(prog, m, rep):
    """argument lists against the parameters of the functions that are certainly called"""
    quals = qual_of(m)
    loc = local_names(m, quals)
    ctxvars = context_vars(m, quals)
    ctx = prog.find_class('AVBIOContext')
    installed = {x.attr for x in ast.walk(ctx.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)} if ctx is not None else set()
    subs_of = {}
    owner = {}
    for c in m.classes.values():
        for n in ast.walk(c.node):
            owner[n] = c
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call):
            continue
        q = quals.get(n, '')
        shadow = set()
        parts = q.split('.')
        for i in range(len(parts)):
            shadow |= loc.get('.'.join(parts[:i + 1]), set())
        f, skip = None, 0
        c = n.func
        if isinstance(c, ast.Name) and c.id not in shadow:
            r = prog.resolve_name(m, c.id)
            if isinstance(r, Class):
                f, skip = r.find_method('__init__'), 1
                if r.find_method('__new__') and not isinstance(r.find_method('__init__'), Func):
                    f = None
            elif isinstance(r, Func) and not r.node.decorator_list:
                f = r
        elif isinstance(c, ast.Attribute):
            b = c.value
            if isinstance(b, ast.Name) and (q, b.id) in ctxvars or is_ctx(b):
                # the context installs some methods on the instance
                if ctx is not None and c.attr not in installed:
                    f, skip = ctx.methods.get(c.attr), 1
            elif isinstance(b, ast.Name) and b.id == 'self' and owner.get(n) is not None and c.attr not in owner[n].getters:
                k = owner[n]
                subs = subs_of.setdefault(k, None) or [x for x in prog.classes() if k in x.mro()]
                subs_of[k] = subs
                fs = {x.find_method(c.attr) for x in subs}
                if len(fs) == 1:
                    f, skip = list(fs)[0], 1
            elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and owner.get(n) is not None:
                f, skip = owner[n].find_method(c.attr, after=owner[n]), 1
            elif isinstance(b, (ast.Name, ast.Attribute)) and not (isinstance(b, ast.Name) and b.id in shadow):
                r = prog.resolve_expr(m, c)
                if isinstance(r, Func) and r.cls is None and not r.node.decorator_list:
                    f = r
        if not isinstance(f, Func):
            continue
        if f.kind == 'static' and f.name != '__new__':
            skip = 0
        if f.name == '__new__' or f.kind not in ('func', 'method', 'static', 'class') or [d for d in f.node.decorator_list if dotted(d) not in ('staticmethod', 'classmethod')]:
            continue
        rep.count('calls checked')
        why = misfit(n, f.node.args, skip)
        if why:
            rep.finding('call/%s.%s/%s' % (m.name, q, f.name), 'the call of %s %s' % (f.qual, why), '%s:%d' % (m.rel, n.lineno))


def misfit(call, a, skip):
    names = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + list(a.args)]
    names = names[skip:] if len(names) >= skip else []
    starred = any(isinstance(x, ast.Starred) for x in call.args)
    unpack = any(k.arg is None for k in call.keywords)
    npos = sum(not isinstance(x, ast.Starred) for x in call.args)
    if npos > len(names) and a.vararg is None:
        return 'has %d positional arguments for %d parameters' % (npos, len(names))
    given = set(names[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'gives %s twice' % k.arg
        if k.arg not in names and k.arg not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return 'names a parameter %s that does not exist' % k.arg
        given.add(k.arg)
    if not starred and not unpack:
        need = names[:len(names) - len(a.defaults)] if a.defaults else names
        for x in need:
            if x not in given:
                return 'does not give %s' % x
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in given:
                return 'does not give %s' % x.arg
    return None


def conversions(fmt):
    """number of values a % format takes, None when by name or unreadable"""
    n, i = 0, 0
    while i < len(fmt):
        if fmt[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(fmt) and fmt[i] == '(':
            return None
        while i < len(fmt) and fmt[i] in '#0- +':
            i += 1
        while i < len(fmt) and (fmt[i].isdigit() or fmt[i] in '.*'):
            n += fmt[i] == '*'
            i += 1
        while i < len(fmt) and fmt[i] in 'hlL':
            i += 1
        if i >= len(fmt):
            return -1
        if fmt[i] == '%':
            i += 1
            continue
        if fmt[i] not in 'diouxXeEfFgGcrsab':
            return -1
        n += 1
        i += 1
    return n


def messages(m, rep):
    quals = qual_of(m)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            want = conversions(n.left.value)
            rep.count('messages checked')
            where = '%s:%d' % (m.rel, n.lineno)
            key = 'message/%s.%s/%s' % (m.name, quals[n], n.left.value[:40])
            if want is None:
                continue
            if want < 0:
                rep.finding(key, 'the format %r is not valid' % n.left.value, where)
                continue
            if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
                if len(n.right.elts) != want:
                    rep.finding(key, 'the message %r takes %d values but is given %d' % (n.left.value, want, len(n.right.elts)), where)
            elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.List)) and want != 1:
                rep.finding(key, 'the message %r takes %d values but is given one' % (n.left.value, want), where)
            elif want > 1 and isinstance(n.right, ast.Call) and isinstance(n.right.func, ast.Name) and n.right.func.id in ('str', 'repr', 'len', 'int', 'hex', 'type'):
                rep.finding(key, 'the message %r takes %d values but is given one' % (n.left.value, want), where)
            elif want == 0:
                rep.finding(key, 'the message %r takes no value but is given one' % n.left.value, where)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            rep.count('messages checked')
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            fmt = n.func.value.value
            where = '%s:%d' % (m.rel, n.lineno)
            key = 'message/%s.%s/%s' % (m.name, quals[n], fmt[:40])
            try:
                auto, fields = 0, []
                for lit, field, spec, conv in string.Formatter().parse(fmt):
                    if field is None:
                        continue
                    h = field.split('.')[0].split('[')[0]
                    if h == '':
                        fields.append(auto)
                        auto += 1
                    else:
                        fields.append(int(h) if h.isdigit() else h)
            except ValueError:
                rep.finding(key, 'the format %r is not valid' % fmt, where)
                continue
            names = {k.arg for k in n.keywords}
            for x in fields:
                if isinstance(x, int) and x >= len(n.args) or isinstance(x, str) and x not in names:
                    rep.finding(key, 'the message %r is not given value %s' % (fmt, x), where)
                    break


def chains(prog, m, rep):
    """if/elif chains over one subject without else"""
    quals = qual_of(m)
    for fn in ast.walk(m.tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        later = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                later.add(n.orelse[0])
        for n in ast.walk(fn):
            if not isinstance(n, ast.If) or n in later:
                continue
            arms = [n]
            while len(arms[-1].orelse) == 1 and isinstance(arms[-1].orelse[0], ast.If):
                arms.append(arms[-1].orelse[0])
            if len(arms) < 2:
                continue
            subj, values = None, set()
            for a in arms:
                t = a.test
                if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is))):
                    break
                try:
                    v = prog.const(m, t.comparators[0])
                except ValueError:
                    break
                if v is None:
                    break
                k = ast.dump(t.left)
                if subj is not None and k != subj:
                    break
                subj = k
                values.update(v if isinstance(t.ops[0], ast.In) and isinstance(v, (tuple, list, set, frozenset)) else [v])
            else:
                rep.count('value chains checked')
                if not idle(arms[-1].orelse):
                    continue
                if falls_off(fn, n) and all(isinstance(a.body[-1], (ast.Return, ast.Raise)) for a in arms) \
                        and any(isinstance(a.body[-1], ast.Return) and a.body[-1].value is not None for a in arms) and not handled(prog, m, fn, n, arms, subj, values):
                    rep.finding('falloff/%s.%s/%s' % (m.name, quals[n], ast.unparse(n.test.left)), 'for a value of %s other than %s nothing is returned or raised' % (ast.unparse(n.test.left), ', '.join(sorted(map(repr, values))[:6])), '%s:%d' % (m.rel, n.lineno))
                    continue
                if all(isinstance(a.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) for a in arms) or handled(prog, m, fn, n, arms, subj, values):
                    continue
                rep.finding('fallthrough/%s.%s/%s' % (m.name, quals[n], ast.unparse(n.test.left)), 'a value of %s other than %s is passed over in silence' % (ast.unparse(n.test.left), ', '.join(sorted(map(repr, values))[:6])), '%s:%d' % (m.rel, n.lineno))


def idle(body):
    """the statements do nothing but talk"""
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                continue
            if isinstance(v, ast.Call) and (dotted(v.func) == 'print' or (dotted(v.func) or '').split('.')[0] in ('logging', 'log', 'logger', 'warnings')):
                continue
        return False
    return True


def may_end(body):
    """the end of the statements can be reached"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If) and s.orelse and not may_end(s.body) and not may_end(s.orelse):
            return False
        if isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and s.test.value and not may_end(s.body):
            return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            return False
        if isinstance(s, ast.With) and not may_end(s.body):
            return False
        if isinstance(s, ast.Try):
            if s.finalbody and not may_end(s.finalbody):
                return False
            if not may_end(s.body + s.orelse) and all(not may_end(h.body) for h in s.handlers):
                return False
        if isinstance(s, (ast.For, ast.While)) and s.orelse and not may_end(s.orelse) and not any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
            return False
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
        if isinstance(s, ast.Expr) and no_return(s.value):
            return False
    return True


SPECIAL = {'__getattr__', '__getattribute__', '__getitem__', '__iter__', '__next__', '__len__', '__hash__', '__eq__', '__lt__', '__str__', '__repr__', '__int__', '__bytes__', '__contains__', '__new__', '__deepcopy__', '__copy__'}


def results(prog, m, rep):
    """special methods and the readers of values that give a value on one path must not run off their end on another"""
    ctx = prog.find_class('AVBIOContext')
    for c in m.classes.values():
        for fn in c.node.body:
            if not isinstance(fn, ast.FunctionDef) or not (fn.name in SPECIAL or c is ctx and fn.name.startswith('read')):
                continue
            own = [x for s in fn.body for x in walk_own(s)]
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own):
                continue
            vals = [x for x in own if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None)]
            if not vals and fn.name not in ('__getattr__', '__getitem__'):
                continue
            rep.count('results checked')
            if may_end(fn.body):
                rep.finding('result/%s.%s' % (c.name, fn.name), '%s.%s can end without a value and without an error' % (c.name, fn.name), '%s:%d' % (m.rel, fn.lineno))


def never_return(prog):
    """functions all of whose paths raise"""
    NO_RETURN.clear()
    NO_RETURN.update(('exit', '_exit'))
    others, never = set(), set()
    for m in prog.all_modules():
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef):
                own = [x for s in fn.body for x in walk_own(s)]
                dead = not may_end(fn.body) and not any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for x in own)
                (never if dead else others).add(fn.name)
    NO_RETURN.update(never - others)


def walk_own(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))


def falls_off(fn, n):
    """nothing comes after the statement in the function"""
    body = fn.body
    while body:
        last = body[-1]
        while isinstance(last, ast.Pass) and len(body) > 1:
            body = body[:-1]
            last = body[-1]
        if last is n:
            return True
        if isinstance(last, ast.With):
            body = last.body
        elif isinstance(last, ast.If) and any(x is n for s in last.body for x in ast.walk(s)):
            body = last.body
        elif isinstance(last, ast.If):
            body = last.orelse
        else:
            return False
    return False


def handled(prog, m, fn, first, arms, subj, values):
    """others cannot get here or have a default"""
    left = first.test.left
    # a local that only ever holds the constants told apart
    if isinstance(left, ast.Name):
        ok, any_ = True, False
        for x in ast.walk(fn):
            if isinstance(x, ast.arg) and x.arg == left.id:
                ok = False
            if isinstance(x, ast.Name) and x.id == left.id and isinstance(x.ctx, ast.Store):
                any_ = True
                p = [a for a in ast.walk(fn) if isinstance(a, ast.Assign) and any(t is x for t in a.targets)]
                try:
                    ok = ok and bool(p) and prog.const(m, p[0].value) in values
                except (ValueError, TypeError):
                    ok = False
        if ok and any_:
            return True
    names = {y.id for y in ast.walk(left) if isinstance(y, ast.Name)}
    sources = [left]
    for x in ast.walk(fn):
        # the subject is taken from something else that was looked at
        if isinstance(left, ast.Name) and isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == left.id for t in x.targets):
            sources.append(x.value)
    texts = {ast.dump(s_) for s_ in sources}
    inside = {id(y) for a in arms for y in ast.walk(a)}
    assigned = None
    for a in arms:
        got = {y.id for s_ in a.body for y in ast.walk(s_) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        assigned = got if assigned is None else assigned & got
    for x in ast.walk(fn):
        if id(x) in inside:
            continue
        # another test of the subject
        if isinstance(x, (ast.If, ast.Assert, ast.While, ast.IfExp)) and any(ast.dump(y) in texts for y in ast.walk(x.test)):
            return True
        # a default for what every branch sets, or a use of a table on the subject
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in (assigned or ()) and x.lineno < first.lineno:
            return True
        if isinstance(x, ast.Subscript) and ast.dump(x.slice) in texts:
            return True
    return False
