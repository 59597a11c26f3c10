"""Loads gostcrypto from the working tree, afresh for every simulated run.

A fresh module set per run keeps runs independent (nothing a run leaves in a
module or class can reach the next one), so one seed is one execution no matter
which process ran what before it.  Sources are compiled once per process, from
the .py files themselves; no .pyc is read.
"""

import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import addresses, locks
from .world import seam

REPO = os.environ.get('GOST_SIM_REPO', '/repo')
PKG = os.path.join(REPO, 'gostcrypto')

_codes = {}
_fine = {}
_sources = {}
_use = _codes
_names = {}


def compile_all():
    _codes.clear()
    _fine.clear()
    _sources.clear()
    for d, _, files in sorted(os.walk(PKG)):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, REPO)[:-3].split(os.sep)
            is_pkg = rel[-1] == '__init__'
            if is_pkg:
                rel = rel[:-1]
            with open(path, 'rb') as fh:
                src = fh.read()
            _sources['.'.join(rel)] = (src, path, is_pkg)
            _codes['.'.join(rel)] = (compile(src, path, 'exec'), path, is_pkg)
    if 'gostcrypto' not in _codes:
        raise RuntimeError('no gostcrypto package under ' + REPO)


def compile_fine():
    """The same sources, compiled so that every expression is a 'line' of its own.

    Only the line table differs: the interpreter then reports a line event before
    each sub-expression, which gives pre-emption and interrupt points inside a
    source line.  (Python's own per-bytecode tracing crashes CPython 3.12 when
    threads are involved.)
    """
    for name, (src, path, is_pkg) in _sources.items():
        tree = ast.parse(src, path)
        n = 0
        for node in ast.walk(tree):
            if hasattr(node, 'lineno'):
                n += 1
                node.lineno = node.end_lineno = 1 + n
                node.col_offset, node.end_col_offset = 0, 1
        _fine[name] = (compile(tree, path, 'exec'), path, is_pkg)


class _Loader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = _names
        exec(_use[module.__name__][0], module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name not in _use:
            return None
        _, src, is_pkg = _use[name]
        spec = importlib.machinery.ModuleSpec(name, _Loader(), origin=src, is_package=is_pkg)
        spec.has_location = True
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(src)]
        return spec


_finder = _Finder()


def fresh(fine=False):
    """Import a brand new copy of the package and return it."""
    global _use, _names
    seam()
    _names = addresses.namespace()
    if not _codes:
        compile_all()
    if fine and not _fine:
        compile_fine()
    _use = _fine if fine else _codes
    locks.install(is_repo_code)
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    for k in [k for k in sys.modules if k == 'gostcrypto' or k.startswith('gostcrypto.')]:
        del sys.modules[k]
    import gostcrypto
    return gostcrypto


def modules():
    return [m for k, m in sorted(sys.modules.items())
            if k == 'gostcrypto' or k.startswith('gostcrypto.')]


def repo_codes():
    """Every code object of the package."""
    todo = [c for c, _, _ in _codes.values()]
    while todo:
        c = todo.pop()
        yield c
        todo += [k for k in c.co_consts if hasattr(k, 'co_code')]


def is_repo_code(code, _cache={}):
    r = _cache.get(code)
    if r is None:
        r = _cache[code] = code.co_filename.startswith(PKG + os.sep)
    return r
