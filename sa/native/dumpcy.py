"""Prints the syntax tree of a Cython file as JSON. Runs under an interpreter that has Cython."""
import json
import sys

from Cython.Compiler import Nodes, ExprNodes, Parsing
from Cython.Compiler.Main import Context
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler.Symtab import ModuleScope


def dump(n, depth=0):
    if n is None or isinstance(n, (bool, int, float)):
        return n
    if isinstance(n, bytes):
        return {'bytes': n.decode('latin-1')}
    if isinstance(n, str):
        return str(n)
    if isinstance(n, (list, tuple)):
        return [dump(x, depth + 1) for x in n]
    if depth > 200:
        return None
    if isinstance(n, Nodes.Node):
        d = {'_': type(n).__name__, 'line': n.pos[1] if n.pos else 0}
        for k, v in vars(n).items():
            if k in ('pos', 'is_temp') or k.startswith('_'):
                continue
            if isinstance(v, (Nodes.Node, list, tuple, str, bytes, bool, int, float)) or v is None:
                d[k] = dump(v, depth + 1)
        return d
    return str(type(n).__name__)


def main():
    path = sys.argv[1]
    ctx = Context(['.'], {}, language_level=3)
    src = FileSourceDescriptor(path)
    scope = ModuleScope('_ext', None, ctx)
    with open(path, encoding='utf-8') as f:
        s = PyrexScanner(f, src, scope=scope, context=ctx, source_encoding='utf8')
        tree = Parsing.p_module(s, None, '_ext')
    sys.stdout.write(json.dumps(dump(tree.body)))


main()
