"""How local the difference between the analysed source and the specified one is.

A difference that the comparison of summaries could neither prove away nor pin down is one of behaviour with little doubt when
the source changed in a few tokens of one function only: a rewriting that the canonical form does not see through is larger."""
import ast
import difflib
import os


class Names(ast.NodeVisitor):
    """Variables of a function, in the order in which they first occur."""
    def __init__(self):
        self.local, self.order = set(), []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.local.add(n.id)

    def visit_arg(self, n):
        self.local.add(n.arg)

    def visit_FunctionDef(self, n):
        self.local.add(n.name)
        self.generic_visit(n)


def tokens(node, local):
    out, names = [], {}

    def name(s):
        if s in local:
            return 'v%d' % names.setdefault(s, len(names))
        return s

    def idle(s):
        return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name))

    def go(n):
        if isinstance(n, list):
            for x in n:
                if not (isinstance(x, ast.stmt) and idle(x)):
                    go(x)
            return
        if isinstance(n, ast.Name):
            out.append(name(n.id))
        elif isinstance(n, ast.Constant):
            out.append(repr(n.value))
        elif isinstance(n, ast.arg):
            out.append(name(n.arg))
        elif isinstance(n, ast.AST):
            if isinstance(n, (ast.expr_context,)):
                return
            out.append(type(n).__name__)
            for f, v in ast.iter_fields(n):
                if f in ('annotation', 'returns', 'type_comment', 'kind', 'type_ignores', 'type_params'):
                    continue
                go(v)
        elif isinstance(n, str):
            out.append(name(n))
        elif n is not None:
            out.append(repr(n))

    go(node.body if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else node)
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        go(node.decorator_list)
        go(node.args)
    return out


def functions(path):
    """qualified name -> tokens of every function of a file, and of the code outside functions"""
    tree = ast.parse(open(path, encoding='utf-8').read())
    out = {}

    def scan(body, pre):
        rest = []
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                v = Names()
                v.visit(s)
                v.local.discard(s.name)
                k = pre + s.name
                while k in out:
                    k += "'"
                out[k] = tokens(s, v.local)
            elif isinstance(s, ast.ClassDef):
                out[pre + s.name + '.'] = tokens(ast.Tuple(elts=list(s.bases) + list(s.decorator_list)), set())
                scan(s.body, pre + s.name + '.')
            else:
                rest.append(s)
        out[pre] = out.get(pre, []) + tokens(ast.Module(body=rest, type_ignores=[]), set())

    scan(tree.body, '')
    return out


def files(root):
    base = os.path.join(root, 'scrappybara')
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                out[os.path.relpath(p, base)] = p
    return out


def extent(ref, root):
    """(changed tokens, changed functions, functions added or removed)"""
    a, b = files(ref), files(root)
    size, changed, moved = 0, [], 0
    for f in sorted(set(a) | set(b)):
        if f not in a or f not in b:
            if f in a or functions(b[f]) not in ({}, {'': []}, {'': ['Module']}):
                moved += 1
            continue
        if open(a[f], 'rb').read() == open(b[f], 'rb').read():
            continue
        x, y = functions(a[f]), functions(b[f])
        moved += len(set(x) ^ set(y))
        for k in sorted(set(x) & set(y)):
            if x[k] != y[k]:
                changed.append(f + ':' + k)
                for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, x[k], y[k], autojunk=False).get_opcodes():
                    if op != 'equal':
                        size += max(i2 - i1, j2 - j1)
    return size, changed, moved
