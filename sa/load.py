"""Whole-program loader: parses every module of src/avb (and examples) from the
current working tree, builds module symbol tables, the class table with linearised
bases, and resolves names to definitions.  Nothing is imported or executed."""
import ast
import hashlib
import os
from .normal import normal

REPO = os.environ.get("AVB_REPO", "/repo")
PKG = "avb"
SRC = os.path.join(REPO, "src", PKG)


class AnalysisBroken(Exception):
    """An anchor the analysis depends on has vanished: neither pass nor violation."""


class Func(object):
    """A function or method definition."""
    __slots__ = ("node", "module", "cls", "name", "kind", "parent")

    def __init__(self, node, module, cls=None, kind="func", parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.kind = kind     # func, method, static, class, getter, setter, deleter
        self.parent = parent

    @property
    def qual(self):
        if self.cls is not None:
            return "%s.%s.%s" % (self.module.name, self.cls.name, self.name)
        return "%s.%s" % (self.module.name, self.name)

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.base_exprs = node.bases
        self.bases = []           # Class or str (external name)
        self.methods = {}         # name -> Func
        self.getters = {}
        self.setters = {}
        self.assigns = {}         # class level name -> ast expr
        self.decorators = []      # dotted names
        self.subclasses = []

    @property
    def qual(self):
        return "%s.%s" % (self.module.name, self.name)

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def mro(self):
        m = getattr(self, '_mro', None)
        if m is None or m[0] != len(self.bases):
            m = self._mro = (len(self.bases), self.linear())
        return list(m[1])

    def linear(self):
        out = []

        def lin(c):
            seqs = [lin(b) if isinstance(b, Class) else [b] for b in c.bases]
            seqs.append(list(c.bases))
            res = [c]
            seqs = [list(s) for s in seqs if s]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        s.pop(0)
            return res
        out = lin(self)
        return out

    def is_subclass(self, name):
        for c in self.mro():
            n = c.name if isinstance(c, Class) else c
            if n == name:
                return True
        return False

    def find_method(self, name, after=None):
        """(Func, owner) for `name`, searching the linearised bases; `after`
        restricts the search to what follows that class (super())."""
        seen = after is None
        for c in self.mro():
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, Class):
                if name in c.methods:
                    return c.methods[name]
            else:
                if after is not None or True:
                    # external base: the method may live there
                    if name in EXTERNAL_METHODS.get(c.split(".")[-1], ()):
                        return ("ext", c.split(".")[-1], name)
        return None

    def find_property(self, name):
        for c in self.mro():
            if isinstance(c, Class):
                if name in c.getters:
                    return c.getters[name]
                if name in c.methods or name in c.assigns:
                    return None
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, Class):
                if name in c.setters:
                    return c.setters[name]
                if name in c.getters or name in c.methods or name in c.assigns:
                    return None
        return None

    def find_assign(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.assigns:
                return c.assigns[name], c
        return None

    def __repr__(self):
        return "<Class %s>" % self.qual


LIST_METHODS = frozenset(dir(list))
DICT_METHODS = frozenset(dir(dict)) | {"move_to_end"}
EXTERNAL_METHODS = {"list": LIST_METHODS, "dict": DICT_METHODS,
                    "OrderedDict": DICT_METHODS, "object": frozenset(dir(object))}


class Module(object):
    def __init__(self, name, path, rel, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = src
        self.lines = src.splitlines()
        self.tree = normal(ast.parse(src, filename=path))
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> ("mod", dotted) | ("from", dotted, name)
        self.globals = {}     # name -> list of value exprs assigned at module level
        self._index()

    def _index(self):
        for node in self.tree.body:
            self._index_stmt(node)

    def _index_stmt(self, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[node.name] = Func(node, self)
        elif isinstance(node, ast.ClassDef):
            self.classes[node.name] = self._index_class(node)
        elif isinstance(node, ast.Import):
            for a in node.names:
                self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name)
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ""
            if node.level:
                base = PKG + ("." + base if base else "")
            for a in node.names:
                self.imports[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        if isinstance(t, ast.Name):
                            self.globals.setdefault(n.id, []).append(node.value)
                        else:
                            self.globals.setdefault(n.id, []).append(None)
        elif isinstance(node, ast.AnnAssign):
            if isinstance(node.target, ast.Name) and node.value is not None:
                self.globals.setdefault(node.target.id, []).append(node.value)
        elif isinstance(node, ast.AugAssign):
            if isinstance(node.target, ast.Name):
                self.globals.setdefault(node.target.id, []).append(None)
        elif isinstance(node, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for fld in ("body", "orelse", "finalbody"):
                for s in getattr(node, fld, []) or []:
                    self._index_stmt(s)
            for h in getattr(node, "handlers", []) or []:
                for s in h.body:
                    self._index_stmt(s)
            if isinstance(node, ast.For):
                for n in ast.walk(node.target):
                    if isinstance(n, ast.Name):
                        self.globals.setdefault(n.id, []).append(None)

    def _index_class(self, node):
        c = Class(node, self)
        c.decorators = [dotted(d) for d in node.decorator_list]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                names = [dotted(d) for d in s.decorator_list]
                for n in names:
                    if n == "staticmethod":
                        kind = "static"
                    elif n == "classmethod":
                        kind = "class"
                    elif n == "property":
                        kind = "getter"
                    elif n and n.endswith(".setter"):
                        kind = "setter"
                    elif n and n.endswith(".getter"):
                        kind = "getter"
                    elif n and n.endswith(".deleter"):
                        kind = "deleter"
                f = Func(s, self, c, kind)
                if s.name == "__new__":
                    f.kind = "static"
                if kind == "getter":
                    c.getters[s.name] = f
                elif kind == "setter":
                    c.setters[s.name] = f
                elif kind == "deleter":
                    pass
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        v = s.value
                        # method aliases and property(...) calls
                        if isinstance(v, ast.Name) and v.id in c.methods:
                            c.methods[t.id] = c.methods[v.id]
                        elif (isinstance(v, ast.Call) and dotted(v.func) == "property"):
                            if v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in c.methods:
                                c.getters[t.id] = c.methods[v.args[0].id]
                            if len(v.args) > 1 and isinstance(v.args[1], ast.Name) and v.args[1].id in c.methods:
                                c.setters[t.id] = c.methods[v.args[1].id]
                        elif (isinstance(v, ast.Call) and dotted(v.func) in ("staticmethod", "classmethod")
                              and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in c.methods):
                            m = c.methods[v.args[0].id]
                            c.methods[t.id] = Func(m.node, self, c, "static" if dotted(v.func) == "staticmethod" else "class")
                        else:
                            c.assigns[t.id] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.assigns[s.target.id] = s.value
        return c

    def line(self, n):
        if 1 <= n <= len(self.lines):
            return self.lines[n - 1].strip()
        return ""


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + "." + node.attr if b else None
    if isinstance(node, ast.Call):
        return dotted(node.func)
    return None


class Program(object):
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.examples = {}
        src = os.path.join(repo, "src", PKG)
        if not os.path.isdir(src):
            raise AnalysisBroken("package directory src/avb not found")
        h = hashlib.sha256()
        self._load_dir(src, PKG, os.path.join("src", PKG), h)
        exdir = os.path.join(repo, "examples")
        if os.path.isdir(exdir):
            for fn in sorted(os.listdir(exdir)):
                if fn.endswith(".py"):
                    p = os.path.join(exdir, fn)
                    s = open(p, encoding="utf-8").read()
                    h.update(s.encode("utf-8"))
                    self.examples[fn] = Module("examples." + fn[:-3], p, "examples/" + fn, s)
        self.digest = h.hexdigest()
        self._link()

    def _load_dir(self, d, pkg, rel, h):
        for fn in sorted(os.listdir(d)):
            p = os.path.join(d, fn)
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                self._load_dir(p, pkg + "." + fn, rel + "/" + fn, h)
            if not fn.endswith(".py"):
                continue
            s = open(p, encoding="utf-8").read()
            h.update(fn.encode() + b"\0" + s.encode("utf-8"))
            name = pkg if fn == "__init__.py" else pkg + "." + fn[:-3]
            self.modules[name] = Module(name, p, rel + "/" + fn, s)

    def _link(self):
        for m in self.all_modules():
            for c in m.classes.values():
                c.bases = []
                for b in c.base_exprs:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
                        r.subclasses.append(c)
                    else:
                        c.bases.append(dotted(b) or "?")
                if not c.bases:
                    c.bases = ["object"]

    def all_modules(self):
        return [self.modules[k] for k in sorted(self.modules)]

    def mod(self, short):
        m = self.modules.get(PKG + "." + short if short else PKG)
        if m is None:
            raise AnalysisBroken("module avb.%s not found" % short)
        return m

    def resolve_name(self, module, name, seen=()):
        """Module-level meaning of `name`: Class, Func, Module, ('global', mod, name)
        or None (builtin or unknown)."""
        if name in module.classes:
            return module.classes[name]
        if name in module.funcs:
            return module.funcs[name]
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ("extmod", imp[1])
            _, base, n = imp
            if base + "." + n in self.modules:
                return self.modules[base + "." + n]
            if base in self.modules:
                key = (base, n)
                if key in seen:
                    return None
                return self.resolve_name(self.modules[base], n, seen + (key,))
            return ("extname", base, n)
        if name in module.globals:
            return ("global", module, name)
        return None

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if isinstance(b, Module):
                return self.resolve_name(b, node.attr)
            if isinstance(b, tuple) and b[0] == "extmod":
                return ("extname", b[1], node.attr)
            if isinstance(b, Class):
                f = b.find_method(node.attr)
                return f
        return None

    def classes(self):
        for m in self.all_modules():
            for c in m.classes.values():
                yield c

    def find_class(self, name):
        r = [c for c in self.classes() if c.name == name]
        return r[0] if len(r) == 1 else (r[0] if r else None)

    def need_class(self, name):
        c = self.find_class(name)
        if c is None:
            raise AnalysisBroken("class %s not found in src/avb" % name)
        return c

    # ---- registry ---------------------------------------------------------
    def const(self, module, node):
        """Literal value of an expression made of literals, module constants and
        simple operators; raises ValueError if it is not one."""
        return fold(self, module, node)

    def registered(self):
        """[(Class, class_id bytes or None, 'class'|'helper')] as registered by
        decorator or by a module level call of the register functions."""
        out = []
        for m in self.all_modules():
            for c in m.classes.values():
                kind = None
                for d in c.decorators:
                    if d and d.split(".")[-1] == "register_class":
                        kind = "class"
                    elif d and d.split(".")[-1] == "register_helper_class":
                        kind = "helper"
                if kind:
                    out.append((c, self.class_id(c), kind))
            for s in m.tree.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                    d = dotted(s.value.func)
                    if d and d.split(".")[-1] in ("register_class", "register_helper_class"):
                        for a in s.value.args:
                            r = self.resolve_expr(m, a)
                            if isinstance(r, Class):
                                out.append((r, self.class_id(r),
                                            "class" if d.endswith("register_class") else "helper"))
        return out

    def class_id(self, c):
        r = c.find_assign("class_id")
        if not r:
            return None
        try:
            return fold(self, r[1].module, r[0])
        except ValueError:
            return None

    def propertydefs(self, c):
        """[(name, type, default expr or None, lineno)] for the class, following
        the `Base.propertydefs + [...]` idiom."""
        r = c.find_assign("propertydefs")
        if not r:
            return []
        return self._pdefs(r[1], r[0])

    def _pdefs(self, owner, node, depth=0):
        if depth > 12:
            raise AnalysisBroken("propertydefs of %s: too deep" % owner.qual)
        m = owner.module
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            return self._pdefs(owner, node.left, depth + 1) + self._pdefs(owner, node.right, depth + 1)
        if isinstance(node, (ast.List, ast.Tuple)):
            out = []
            for e in node.elts:
                if isinstance(e, ast.Starred):
                    out += self._pdefs(owner, e.value, depth + 1)
                    continue
                if isinstance(e, ast.Call):
                    args = list(e.args)
                    kw = {k.arg: k.value for k in e.keywords}
                    name = args[0] if args else kw.get("name")
                    typ = args[2] if len(args) > 2 else kw.get("data_type")
                    dflt = args[3] if len(args) > 3 else kw.get("default_value")
                    try:
                        n = fold(self, m, name)
                        t = fold(self, m, typ) if typ is not None else None
                    except ValueError:
                        raise AnalysisBroken("unreadable property definition at %s:%d" % (m.rel, e.lineno))
                    out.append((n, t, dflt, e.lineno, m))
                else:
                    raise AnalysisBroken("unreadable property definition at %s:%d" % (m.rel, e.lineno))
            return out
        if isinstance(node, ast.Call) and dotted(node.func) == "list" and node.args:
            return self._pdefs(owner, node.args[0], depth + 1)
        if isinstance(node, ast.Attribute) and node.attr == "propertydefs":
            b = self.resolve_expr(m, node.value)
            if isinstance(b, Class):
                return self.propertydefs(b)
        if isinstance(node, ast.Name):
            r = owner.assigns.get(node.id)
            if r is not None and r is not node:
                return self._pdefs(owner, r, depth + 1)
            r = self.resolve_name(m, node.id)
            if isinstance(r, tuple) and r[0] == "global" and len(r[1].globals[r[2]]) == 1:
                g = r[1].globals[r[2]][0]
                if g is not None:
                    class _O(object):
                        pass
                    o = _O()
                    o.module = r[1]
                    o.assigns = {}
                    o.qual = owner.qual
                    return self._pdefs(o, g, depth + 1)
        raise AnalysisBroken("unreadable propertydefs of %s (%s:%d)" % (owner.qual, m.rel, node.lineno))

    def functions(self, modules=None):
        """Every function and method (incl. nested) of the package."""
        for m in (modules if modules is not None else self.all_modules()):
            yield from module_functions(m)


def module_functions(m):
    for f in m.funcs.values():
        yield f
    for c in m.classes.values():
        seen = set()
        for d in (c.methods, c.getters, c.setters):
            for f in d.values():
                if id(f.node) not in seen:
                    seen.add(id(f.node))
                    yield f


def fold(prog, module, node, depth=0):
    if depth > 30:
        raise ValueError("depth")
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.UnaryOp):
        v = fold(prog, module, node.operand, depth + 1)
        if isinstance(node.op, ast.USub):
            return -v
        if isinstance(node.op, ast.Invert):
            return ~v
        if isinstance(node.op, ast.Not):
            return not v
        return v
    if isinstance(node, ast.BinOp):
        a = fold(prog, module, node.left, depth + 1)
        b = fold(prog, module, node.right, depth + 1)
        return binop(node.op, a, b)
    if isinstance(node, (ast.Tuple, ast.List)):
        r = [fold(prog, module, e, depth + 1) for e in node.elts]
        return tuple(r) if isinstance(node, ast.Tuple) else r
    if isinstance(node, ast.Set):
        return set(fold(prog, module, e, depth + 1) for e in node.elts)
    if isinstance(node, ast.Dict):
        if any(k is None for k in node.keys):
            raise ValueError("dict unpack")
        return {fold(prog, module, k, depth + 1): fold(prog, module, v, depth + 1)
                for k, v in zip(node.keys, node.values)}
    if isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
        try:
            return fold(prog, module, node.value, depth + 1)[fold(prog, module, node.slice, depth + 1)]
        except (KeyError, IndexError, TypeError):
            raise ValueError("subscript")
    if isinstance(node, ast.Call):
        d = dotted(node.func)
        if d in ("bytes", "str", "bytearray", "int", "frozenset", "set", "tuple", "list", "dict") and not node.keywords:
            args = [fold(prog, module, a, depth + 1) for a in node.args]
            if d == "bytearray":
                d = "bytes"
            try:
                return {"bytes": bytes, "str": str, "int": int, "frozenset": frozenset,
                        "set": set, "tuple": tuple, "list": list, "dict": dict}[d](*args)
            except Exception:
                raise ValueError("call")
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1:
            s = fold(prog, module, node.func.value, depth + 1)
            return s.join(fold(prog, module, node.args[0], depth + 1))
        raise ValueError("call")
    if isinstance(node, (ast.Name, ast.Attribute)):
        r = prog.resolve_expr(module, node) if prog is not None else None
        if isinstance(r, tuple) and r[0] == "global":
            vals = r[1].globals[r[2]]
            if len(vals) == 1 and vals[0] is not None:
                return fold(prog, r[1], vals[0], depth + 1)
        if isinstance(node, ast.Attribute):
            b = prog.resolve_expr(module, node.value) if prog is not None else None
            if isinstance(b, Class):
                a = b.find_assign(node.attr)
                if a:
                    return fold(prog, a[1].module, a[0], depth + 1)
    raise ValueError("not a constant: %s" % ast.dump(node)[:60])


def binop(op, a, b):
    try:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            if isinstance(a, int) and isinstance(b, (str, bytes, list, tuple)) and a > 4096:
                raise ValueError("big")
            if isinstance(b, int) and isinstance(a, (str, bytes, list, tuple)) and b > 4096:
                raise ValueError("big")
            return a * b
        if isinstance(op, ast.FloorDiv):
            return a // b
        if isinstance(op, ast.Div):
            return a / b
        if isinstance(op, ast.Mod):
            return a % b
        if isinstance(op, ast.LShift):
            if b > 4096:
                raise ValueError("big")
            return a << b
        if isinstance(op, ast.RShift):
            return a >> b
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitAnd):
            return a & b
        if isinstance(op, ast.BitXor):
            return a ^ b
        if isinstance(op, ast.Pow):
            if abs(b) > 256:
                raise ValueError("big")
            return a ** b
    except ValueError:
        raise
    except Exception:
        raise ValueError("binop")
    raise ValueError("binop")
