"""Source loader: parses the modules of the analysed tree and indexes classes and functions.

Only `ast.parse` is used; the analysed code is never imported or executed.
"""
import ast
import hashlib
import os


class AnalysisError(Exception):
    """The analysis cannot answer (vanished anchor, unparsable source)."""


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Loader(object):
    """Finds modules under a list of roots (first match wins)."""

    def __init__(self, roots):
        self.roots = roots
        self.cache = {}

    def find(self, name):
        if name in self.cache:
            return self.cache[name]
        mod = None
        rel = name.replace('.', '/')
        for root in self.roots:
            for cand in (rel + '.py', rel + '/__init__.py'):
                path = os.path.join(root, cand)
                if os.path.isfile(path):
                    with open(path, encoding='utf-8') as f:
                        src = f.read()
                    try:
                        tree = ast.parse(src, path)
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (path, e))
                    mod = Module(name, path, tree, src)
                    break
            if mod:
                break
        self.cache[name] = mod
        return mod

    def add_source(self, name, source, path='<driver>'):
        tree = ast.parse(source, path)
        mod = Module(name, path, tree, source)
        self.cache[name] = mod
        return mod


def all_modules(root, package):
    """Names of every module of the package found on disk."""
    names = []
    base = os.path.join(root, package)
    for d, dirs, files in sorted(os.walk(base)):
        dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'data'))
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                names.append(rel)
    return names


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()
