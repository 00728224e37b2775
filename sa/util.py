"""Small helpers shared by the checks."""
import ast
from .model import *


def parents(module):
    """id(node) -> parent node for a whole module"""
    d = module.__dict__.get("_par")
    if d is None:
        d = {}
        for n in ast.walk(module.tree):
            for ch in ast.iter_child_nodes(n):
                d[id(ch)] = n
        module._par = d
    return d


def ancestors(module, n):
    p = parents(module)
    n = p.get(id(n))
    while n is not None:
        yield n
        n = p.get(id(n))


def enclosing_func(module, n):
    for a in ancestors(module, n):
        f = getattr(a, "_func", None)
        if f is not None:
            return f
    return None


def in_main_guard(module, n):
    return any(isinstance(a, ast.If) and isinstance(a.test, ast.Compare) and isinstance(a.test.left, ast.Name) and a.test.left.id == "__name__"
               for a in ancestors(module, n))


def blocks_of(st):
    """statement lists directly inside a statement"""
    for name in ("body", "orelse", "finalbody"):
        b = getattr(st, name, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(st, "handlers", []) or []:
        yield h.body
    for c in getattr(st, "cases", []) or []:
        yield c.body


def statement_of(module, n):
    """(statement, block list, index) containing expression n"""
    p = parents(module)
    while n is not None and not isinstance(n, ast.stmt):
        n = p.get(id(n))
    if n is None:
        return None, None, None
    up = p.get(id(n))
    if up is not None:
        for b in blocks_of(up):
            for i, s in enumerate(b):
                if s is n:
                    return n, b, i
    return n, None, None


def call_sites(repo):
    """Func -> [(caller Func or None, call node, module)] for calls resolving by name/import/self to that function"""
    d = repo.__dict__.get("_csites")
    if d is None:
        d = {}
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    f = enclosing_func(m, n)
                    if f is not None:
                        for t in repo.resolve_call(n, f, fallback=True):
                            if isinstance(t, Func):
                                d.setdefault(t, []).append((f, n, m))
                    else:
                        r = repo.resolve(n.func, m, None)
                        if isinstance(r, Func):
                            d.setdefault(r, []).append((None, n, m))
        repo._csites = d
    return d
