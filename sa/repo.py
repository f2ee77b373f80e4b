"""Source model of the analysed tree: modules, imports, classes, functions."""

from __future__ import annotations

import ast
import hashlib
import os

ROOT = os.environ.get('SA_REPO', '/repo')
PKG = 'structuralcodes'


class AnalysisBroken(Exception):
    """An anchor of the analysis is gone: no verdict is possible."""


class Module:
    def __init__(self, name, path, is_pkg, text=None):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        if text is None:
            with open(path, 'rb') as f:
                src = f.read()
        else:
            src = text.encode()
        self.digest = hashlib.sha256(src).hexdigest()
        self.src = src.decode()
        self.tree = ast.parse(self.src, path)
        self.rel = os.path.relpath(path, ROOT)
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child._parent = node
        self.tree._parent = None


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules = {}
        base = os.path.join(self.root, PKG)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                parts = os.path.relpath(p, self.root)[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                self.modules[name] = Module(name, p, is_pkg)
        if len(self.modules) < 60:
            raise AnalysisBroken(f'only {len(self.modules)} modules found')

    def model(self, name, text):
        """Add a module of the analysis itself (model classes)."""
        path = os.path.join(self.root, 'sa-model', name + '.py')
        self.modules[name] = Module(name, path, False, text)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + self.modules[n].digest.encode())
        return h.hexdigest()

    def resolve_relative(self, module, level, target):
        """Absolute dotted name of an ImportFrom."""
        if level == 0:
            return target or ''
        parts = module.name.split('.')
        if not module.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return '.'.join(parts + ([target] if target else []))

    def functions(self):
        """Every function/method of the tree: (module, qualname, node, cls)."""
        for m in self.modules.values():
            yield from _funcs(m, m.tree.body, '', None)


def _funcs(m, body, prefix, cls):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + n.name
            yield m, q, n, cls
            yield from _funcs(m, n.body, q + '.', None)
        elif isinstance(n, ast.ClassDef):
            yield from _funcs(m, n.body, prefix + n.name + '.', n)
        elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ('body', 'orelse', 'finalbody'):
                yield from _funcs(m, getattr(n, f, []) or [], prefix, cls)
            for h in getattr(n, 'handlers', []) or []:
                yield from _funcs(m, h.body, prefix, cls)


def loc(module, node):
    return f'{module.rel}:{getattr(node, "lineno", 0)}'
