"""A counting `while` is the `for` over a range that it stands for.

    i = a                          for i in range(a, n):
    while i < n:            ->         body
        body
        i += 1

Only where that is the same thing: the counter is a plain name that nothing else in the
function's loop assigns, the step comes last (or first, with the reads of the counter shifted by
it) and no `continue` skips it, the limit is made of names and lengths that the body leaves alone,
and the counter is not looked at after the loop. So is a loop that fills an empty list up to a
given length.

A loop over written out names that sets attributes by those names (`for k in ('u16', 's16'):
setattr(self, 'read_' + k, ...)`) is the statements that it stands for."""
import ast
import copy

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'discard', 'update', 'popitem', 'setdefault'}


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def stored(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                out.update(x.names)
    return out


def simple(n):
    """a limit that is made of constants, names, attributes and lengths"""
    if isinstance(n, ast.Constant):
        return isinstance(n.value, int)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, int)
    if isinstance(n, ast.Name):
        return True
    if isinstance(n, ast.Attribute):
        return simple(n.value)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
        return simple(n.left) and simple(n.right)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not n.keywords:
        return simple(n.args[0])
    return False


def disturbed(limit, body):
    """can the body change the limit?"""
    if names(limit, ast.Load) & stored(body):
        return True
    attrs = {x.attr for x in ast.walk(limit) if isinstance(x, ast.Attribute)}
    measured = {ast.dump(x.args[0]) for x in ast.walk(limit) if isinstance(x, ast.Call) and x.args}
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in attrs:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and ast.dump(x.func.value) in measured:
                return True
            if isinstance(x, ast.Delete) and measured and any(isinstance(t, ast.Subscript) and ast.dump(t.value).replace('Del()', 'Load()') in measured for t in x.targets):
                return True
            if isinstance(x, ast.AugAssign) and ast.dump(x.target).replace('Store()', 'Load()') in measured:
                return True
    return False


def own_continue(body):
    """a continue of this very loop"""
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if own_continue(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for k in ('body', 'orelse', 'finalbody'):
            if own_continue(getattr(s, k, None) or []):
                return True
        for h in getattr(s, 'handlers', None) or []:
            if own_continue(h.body):
                return True
    return False


def is_step(s, name):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.op, ast.Add):
        return isinstance(s.value, ast.Constant) and s.value.value == 1
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
        v = s.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            for a, b in ((v.left, v.right), (v.right, v.left)):
                if isinstance(a, ast.Name) and a.id == name and isinstance(b, ast.Constant) and b.value == 1:
                    return True
    return False


def limit_of(test):
    """(counter, limit) of i < n, n > i, i != n, i + c < n, i <= n"""
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    a, op, b = test.left, test.ops[0], test.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b = b, a
        op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not isinstance(op, (ast.Lt, ast.LtE)):
        return None
    off = 0
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) and isinstance(a.left, ast.Name) and isinstance(a.right, ast.Constant) and isinstance(a.right.value, int):
        off = a.right.value
        a = a.left
    if not isinstance(a, ast.Name) or not simple(b) or a.id in names(b, ast.Load):
        return None
    return a.id, b, (1 if isinstance(op, ast.LtE) else 0) - off


def plus(n, c):
    if not c:
        return n
    if isinstance(n, ast.UnaryOp):
        n = ast.Constant(-n.operand.value)
    if isinstance(n, ast.Constant):
        return ast.Constant(n.value + c)
    return ast.BinOp(n, ast.Add() if c > 0 else ast.Sub(), ast.Constant(abs(c)))


def rewrite(start, loop, after):
    """(the for loop) or None; start is the statement that sets the counter"""
    lim = limit_of(loop.test)
    if lim is None or loop.orelse:
        return None
    i, n, off = lim
    if not (isinstance(start, ast.Assign) and len(start.targets) == 1 and isinstance(start.targets[0], ast.Name) and start.targets[0].id == i and simple(start.value)):
        return None
    body = loop.body
    if len(body) < 2:
        return None
    if is_step(body[-1], i) and not own_continue(body):
        rest = body[:-1]
        lo, hi = start.value, plus(n, off)
    elif is_step(body[0], i):
        rest = body[1:]
        lo, hi = plus(start.value, 1), plus(n, off + 1)
    else:
        return None
    if i in stored(rest) or disturbed(n, rest):
        return None
    inside = {id(x) for x in ast.walk(loop)}
    for s in after:
        if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(s)):
            return None
        if any(x is start for x in ast.walk(s)):
            continue
        if i in stored([s]) and isinstance(s, ast.Assign):
            break
    args = [hi] if isinstance(lo, ast.Constant) and lo.value == 0 else [lo, hi]
    new = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Call(ast.Name('range', ast.Load()), args, []), body=rest, orelse=[])
    ast.copy_location(new, loop)
    new.end_lineno = getattr(loop, 'end_lineno', None)
    for x in ast.walk(new.target):
        ast.copy_location(x, loop)
    for x in ast.walk(new.iter):
        if not hasattr(x, 'lineno') and isinstance(x, ast.expr):
            ast.copy_location(x, loop)
    return new


def filling(loop, before):
    """while len(l) < n: ... l.append(x), the list being empty at first"""
    t = loop.test
    if loop.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, ast.Gt):
        a, b, op = b, a, ast.Lt()
    if not isinstance(op, (ast.Lt, ast.NotEq)) or not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1 and isinstance(a.args[0], ast.Name)):
        return None
    l = a.args[0].id
    if not simple(b) or l in names(b, ast.Load) or disturbed(b, loop.body) or own_continue(loop.body):
        return None
    for p in reversed(before):
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == l:
            if not (isinstance(p.value, ast.List) and not p.value.elts):
                return None
            break
        if l in names(p, (ast.Load, ast.Store, ast.Del)):
            return None
    else:
        return None
    grown = 0
    for s in loop.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == l and len(s.value.args) == 1 and l not in names(s.value.args[0], ast.Load):
            grown += 1
        elif l in names(s, (ast.Load, ast.Store, ast.Del)):
            return None
    if grown != 1:
        return None
    new = ast.For(target=ast.Name('_', ast.Store()), iter=ast.Call(ast.Name('range', ast.Load()), [b], []), body=loop.body, orelse=[])
    ast.copy_location(new, loop)
    new.end_lineno = getattr(loop, 'end_lineno', None)
    for x in list(ast.walk(new.target)) + list(ast.walk(new.iter)):
        if not hasattr(x, 'lineno') and isinstance(x, ast.expr):
            ast.copy_location(x, loop)
    return new


def block(body, outer, func):
    """rewrites the loops of a list of statements; outer: what runs after it"""
    k = 0
    while k < len(body):
        s = body[k]
        after = body[k + 1:] + outer
        if isinstance(s, ast.While) and func is not None:
            for j in range(k - 1, -1, -1):
                p = body[j]
                t = limit_of(s.test)
                if t is None:
                    break
                if t[0] in stored([p]) or isinstance(p, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t[0] for x in p.targets):
                    if isinstance(p, ast.Assign) and not any(t[0] in names(q, ast.Load) for q in body[j + 1:k]):
                        inner = names(p.value, ast.Load) & stored(body[j + 1:k])
                        new = None if inner else rewrite(p, s, after)
                        if new is not None:
                            body[k] = s = new
                    break
        if isinstance(s, ast.While) and func is not None:
            new = filling(s, body[:k])
            if new is not None:
                body[k] = s = new
        loops = isinstance(s, (ast.For, ast.While))
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            block(s.body, [], s)
        elif isinstance(s, ast.ClassDef):
            block(s.body, [], None)
        else:
            for n in ('body', 'orelse', 'finalbody'):
                b = getattr(s, n, None)
                if isinstance(b, list):
                    block(b, ([s] if loops else []) + after, func)
            for h in getattr(s, 'handlers', None) or []:
                block(h.body, after, func)
        k += 1


class Put(ast.NodeTransformer):
    """constants for names, and what follows from them: joined strings, named attributes"""

    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return ast.copy_location(ast.Constant(self.env[n.id]), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        a, b = n.left, n.right
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                if isinstance(n.op, ast.Add) and isinstance(b, ast.Constant) and isinstance(b.value, str):
                    return ast.copy_location(ast.Constant(a.value + b.value), n)
                if isinstance(n.op, ast.Mod) and isinstance(b, ast.Constant):
                    return ast.copy_location(ast.Constant(a.value % b.value), n)
                if isinstance(n.op, ast.Mod) and isinstance(b, ast.Tuple) and all(isinstance(x, ast.Constant) for x in b.elts):
                    return ast.copy_location(ast.Constant(a.value % tuple(x.value for x in b.elts)), n)
            except (TypeError, ValueError):
                pass
        # 'a' + 'b' + x read from the right
        if isinstance(n.op, ast.Add) and isinstance(b, ast.BinOp) and isinstance(b.op, ast.Add) and isinstance(b.left, ast.Constant) and isinstance(a, ast.Constant) and isinstance(a.value, str) and isinstance(b.left.value, str):
            return ast.copy_location(ast.BinOp(ast.copy_location(ast.Constant(a.value + b.left.value), a), ast.Add(), b.right), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        out = ''
        for x in n.values:
            if isinstance(x, ast.FormattedValue) and isinstance(x.value, ast.Constant) and x.format_spec is None and x.conversion == -1:
                out += format(x.value.value)
            elif isinstance(x, ast.Constant):
                out += x.value
            else:
                return n
        return ast.copy_location(ast.Constant(out), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not n.keywords and all(isinstance(x, ast.Constant) for x in n.args):
            try:
                return ast.copy_location(ast.Constant(f.value.value.format(*[x.value for x in n.args])), n)
            except (IndexError, KeyError, ValueError):
                return n
        if isinstance(f, ast.Name) and f.id == 'getattr' and len(n.args) == 2 and not n.keywords and named(n.args[1]):
            return ast.copy_location(ast.Attribute(n.args[0], n.args[1].value, ast.Load()), n)
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) == 3 and not c.keywords and named(c.args[1]):
            t = ast.copy_location(ast.Attribute(c.args[0], c.args[1].value, ast.Store()), c)
            return ast.copy_location(ast.Assign([t], c.args[2]), n)
        return n


def named(n):
    return isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()


def leaves(body):
    """break or continue of this loop, or a function that would keep its variable"""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Continue, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return True
    return False


def unrolled(loop, lists):
    """the statements of a loop over written out names that sets attributes by name"""
    if loop.orelse or leaves(loop.body):
        return None
    if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' for s in loop.body for x in ast.walk(s)):
        return None
    it = loop.iter
    if isinstance(it, ast.Name):
        it = lists.get(it.id)
    if not isinstance(it, (ast.Tuple, ast.List)) or len(it.elts) > 64:
        return None
    t = loop.target
    rows = []
    for e in it.elts:
        if isinstance(t, ast.Name) and isinstance(e, ast.Constant) and isinstance(e.value, str):
            rows.append({t.id: e.value})
        elif isinstance(t, ast.Tuple) and isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == len(t.elts) and all(isinstance(x, ast.Name) for x in t.elts) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts):
            rows.append({a.id: b.value for a, b in zip(t.elts, e.elts)})
        else:
            return None
    if not rows or set(rows[0]) & stored(loop.body):
        return None
    out = []
    for r in rows:
        env = dict(r)
        for s in loop.body:
            s = Put(env).visit(copy.deepcopy(s))
            # a local name made of the constant
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                if isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    env[s.targets[0].id] = s.value.value
                else:
                    env.pop(s.targets[0].id, None)
            out.append(s)
    return out


def unroll(body, lists):
    k = 0
    while k < len(body):
        s = body[k]
        for n in ('body', 'orelse', 'finalbody'):
            b = getattr(s, n, None)
            if isinstance(b, list):
                unroll(b, lists)
        for h in getattr(s, 'handlers', None) or []:
            unroll(h.body, lists)
        if isinstance(s, ast.For):
            new = unrolled(s, lists)
            if new is not None:
                unroll(new, lists)
                body[k:k + 1] = new
                k += len(new)
                continue
        k += 1


def normal(tree):
    lists = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n = s.targets[0].id
            lists[n] = None if n in lists else s.value
    unroll(tree.body, lists)
    block(tree.body, [], None)
    return tree
