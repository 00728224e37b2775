"""Program model: modules, classes with MRO, functions, resolved names, call targets.

Everything is derived from the abstract syntax trees of the current source under REPO/pymoo.
Nothing of the package is imported or executed.
"""
import ast
import os
import sys
import builtins
from pathlib import Path

from .normal import normal
from . import inline

sys.setrecursionlimit(20000)

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PKG = "pymoo"
BUILTINS = set(dir(builtins))


class Ext:
    """A name that leaves the package: dotted path such as 'numpy.random.rand'."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("Ext", self.path))


class ModRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ModRef({self.name})"


class Var:
    """Module-level variable (value expression kept)."""

    def __init__(self, module, name, node):
        self.module, self.name, self.node = module, name, node

    def __repr__(self):
        return f"Var({self.module.name}.{self.name})"


class Func:
    def __init__(self, repo, module, node, cls, parent, qual):
        self.repo, self.module, self.node, self.cls, self.parent = repo, module, node, cls, parent
        self.qual = qual
        self.name = getattr(node, "name", "<lambda>")
        self.inner = {}          # nested function name -> Func
        self.locals_imports = {}  # name -> binding (function-local imports)
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.args = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[arg.arg] = d
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[arg.arg] = d
        self.annotations = {x.arg: x.annotation for x in pos + a.kwonlyargs if x.annotation is not None}
        self.decorators = []
        self._assigned = None

    @property
    def is_method(self):
        return self.cls is not None and self.parent is None

    @property
    def is_static(self):
        return any(d == "staticmethod" for d in self.decorator_names())

    @property
    def is_classmethod(self):
        return any(d == "classmethod" for d in self.decorator_names())

    def decorator_names(self):
        out = []
        for d in getattr(self.node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            out.append(dotted(t) or "?")
        return out

    @property
    def params(self):
        """positional parameter names as seen by a caller (self/cls removed for bound methods)"""
        if self.is_method and not self.is_static:
            return self.args[1:]
        return list(self.args)

    @property
    def all_params(self):
        return self.params + self.kwonly

    @property
    def selfname(self):
        if self.is_method and not self.is_static and self.args:
            return self.args[0]
        return None

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(self.node.body), self.node.body)]
        return self.node.body

    @property
    def lineno(self):
        return self.node.lineno

    @property
    def id(self):
        return f"{self.module.name}:{self.qual}"

    def __hash__(self):
        # by name, so that runs do not depend on memory addresses
        h = self.__dict__.get("_h")
        if h is None:
            h = self._h = hash((self.module.name, self.node.lineno, self.node.col_offset))
        return h

    def __eq__(self, o):
        return self is o

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno} {self.qual}"

    def walk(self):
        """all nodes of the body except those of nested function/class/lambda definitions"""
        stack = list(reversed(self.body))
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                # defaults and decorators are evaluated in this scope
                continue
            stack.extend(reversed(list(ast.iter_child_nodes(n))))

    def __repr__(self):
        return f"<Func {self.id}>"


class Class:
    def __init__(self, repo, module, node, qual):
        self.repo, self.module, self.node, self.qual = repo, module, node, qual
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.class_attrs = {}   # name -> value node
        self._mro = None
        self.subclasses = set()   # direct

    @property
    def id(self):
        return f"{self.module.name}:{self.qual}"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno} {self.qual}"

    def __hash__(self):
        h = self.__dict__.get("_h")
        if h is None:
            h = self._h = hash((self.module.name, self.node.lineno, self.node.col_offset, "class"))
        return h

    def __eq__(self, o):
        return self is o

    @property
    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.repo.resolve(b, self.module, None)
            out.append(r)
        return out

    @property
    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def is_subclass(self, other):
        return any(c is other for c in self.mro)

    def base_names(self):
        out = set()
        for c in self.mro:
            out.add(c.name if isinstance(c, Class) else (c.path if isinstance(c, Ext) else str(c)))
        return out

    def lookup(self, name, after=None):
        """method Func found along the MRO (after the class `after` if given)."""
        seen = after is None
        for c in self.mro:
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro:
            if isinstance(c, Class):
                if name in c.methods:
                    return c.methods[name]
                if name in c.class_attrs:
                    return c.class_attrs[name]
        return None

    def all_subclasses(self):
        out, stack = set(), [self]
        while stack:
            c = stack.pop()
            for s in c.subclasses:
                if s not in out:
                    out.add(s)
                    stack.append(s)
        return out

    def family(self):
        return {self} | self.all_subclasses()

    def __repr__(self):
        return f"<Class {self.id}>"


def _c3(cls):
    bases = [b for b in cls.bases if isinstance(b, (Class, Ext))]
    seqs = []
    for b in bases:
        seqs.append(list(b.mro) if isinstance(b, Class) else [b])
    seqs.append(list(bases))
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            head = s[0]
            if not any(head in t[1:] for t in seqs):
                break
        else:
            head = seqs[0][0]
        out.append(head)
        seqs = [[x for x in s if x != head] if head in s else s for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class Module:
    def __init__(self, name, path, rel, is_pkg, src=None):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        self.src = path.read_text(encoding="utf-8") if src is None else src
        self.tree = ast.parse(self.src, str(path))
        self.globals = {}
        self.funcs = []      # every Func of the module incl. nested
        self.classes = []
        self.stars = []
        self.touched = False  # helpers have been put in place of their calls

    def __repr__(self):
        return f"<Module {self.name}>"


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Repo:
    def __init__(self, root=None, files=None):
        """the package under root, or (self-tests) the in-memory {relative path: source} given as files"""
        self.root = Path(root) if root else REPO
        self.mini = files is not None
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.by_method = {}
        base = self.root / PKG
        for p in sorted(base.rglob("*.py")) if files is None else sorted(Path(x) for x in files):
            rel = p.relative_to(self.root) if files is None else p
            parts = list(rel.with_suffix("").parts)
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            m = Module(".".join(parts), p, str(rel), is_pkg, None if files is None else files[str(p)])
            self.modules[m.name] = m
        known = inline.baseline() if files is None else None
        if known is not None:
            inline.inline(self.modules, known)
        for m in self.modules.values():
            m.tree = normal(m.tree)
            self._index(m)
        for m in self.modules.values():
            for name, level, target in m.stars:
                t = self.modules.get(target)
                if t:
                    for k, v in t.globals.items():
                        if not k.startswith("_"):
                            m.globals.setdefault(k, v)
        self._resolved = {}
        for c in self.classes.values():
            for b in c.bases:
                if isinstance(b, Class):
                    b.subclasses.add(c)
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        self._types_cache = {}
        self._name_types = None

    # ------------------------------------------------------------------ index
    def _index(self, m):
        self._bind_block(m.tree.body, m, m.globals)
        self._collect(m.tree.body, m, None, None, "")

    def _abs(self, m, node):
        if node.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (node.level - 1)]
            return ".".join(parts + ([node.module] if node.module else []))
        return node.module

    def _bind_import(self, n, m, table):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    table[a.asname] = ("mod", a.name)
                else:
                    table[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            src = self._abs(m, n)
            for a in n.names:
                if a.name == "*":
                    m.stars.append((None, n.level, src))
                else:
                    table[a.asname or a.name] = ("from", src, a.name)

    def _bind_block(self, body, m, table):
        for n in body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._bind_import(n, m, table)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                table[n.name] = ("def", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for nm in target_names(t):
                        table[nm] = ("var", n.value if isinstance(t, ast.Name) else None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                table[n.target.id] = ("var", n.value)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    self._bind_block(getattr(n, f, []) or [], m, table)
                for h in getattr(n, "handlers", []):
                    alt = {}           # placeholders of an `except ImportError` do not hide the import
                    self._bind_block(h.body, m, alt)
                    for k, v in alt.items():
                        table.setdefault(k, v)
                if isinstance(n, ast.For):
                    for nm in target_names(n.target):
                        table.setdefault(nm, ("var", None))

    def _collect(self, body, m, cls, parent, prefix):
        for n in body:
            self._collect_node(n, m, cls, parent, prefix)

    def _collect_node(self, n, m, cls, parent, prefix):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + n.name
            base, k = q, 2
            while f"{m.name}:{q}" in self.funcs:
                q = f"{base}#{k}"
                k += 1
            f = Func(self, m, n, cls if parent is None else None, parent, q)
            f.owner = cls if parent is None else getattr(parent, "owner", None)
            self.funcs[f.id] = f
            m.funcs.append(f)
            n._func = f
            if cls is not None and parent is None:
                if n.name in cls.methods and any(d.endswith((".setter", ".deleter")) for d in f.decorator_names()):
                    cls.setters[n.name] = f
                else:
                    cls.methods[n.name] = f
            if parent is not None:
                parent.inner[n.name] = f
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self._collect_expr(d, m, cls, parent, prefix)
            self._local_imports(n.body, m, f)
            for s in n.body:
                self._collect_node(s, m, None, f, q + ".<locals>.")
        elif isinstance(n, ast.ClassDef):
            q = prefix + n.name
            c = Class(self, m, n, q)
            c.parent_func = parent
            base, k = q, 2
            while f"{m.name}:{q}" in self.classes:
                q = f"{base}#{k}"
                k += 1
            c.qual = q
            self.classes[c.id] = c
            m.classes.append(c)
            n._class = c
            for s in n.body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        for nm in target_names(t):
                            c.class_attrs[nm] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.class_attrs[s.target.id] = s.value
            for s in n.body:
                self._collect_node(s, m, c, None, q + ".")
        elif isinstance(n, ast.Lambda):
            self._collect_expr(n, m, cls, parent, prefix)
        else:
            for ch in ast.iter_child_nodes(n):
                self._collect_node(ch, m, cls if isinstance(n, (ast.If, ast.Try)) else None if parent is None and cls is None else cls, parent, prefix)

    def _collect_expr(self, e, m, cls, parent, prefix):
        if isinstance(e, ast.Lambda):
            base = prefix + "<lambda>"
            q, k = base, 2
            while f"{m.name}:{q}" in self.funcs:
                q = f"{base}#{k}"
                k += 1
            f = Func(self, m, e, None, parent, q)
            f.owner = getattr(parent, "owner", None) if parent else cls
            self.funcs[f.id] = f
            m.funcs.append(f)
            e._func = f
            self._collect_node(e.body, m, None, f, q + ".<locals>.")
        else:
            for ch in ast.iter_child_nodes(e):
                self._collect_node(ch, m, cls, parent, prefix)

    def _local_imports(self, body, m, f):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._bind_import(n, m, f.locals_imports)

    # ---------------------------------------------------------------- resolve
    def lookup_global(self, modname, name, depth=0):
        if depth > 12:
            return None
        m = self.modules.get(modname)
        if m is None:
            return Ext(f"{modname}.{name}")
        b = m.globals.get(name)
        if b is None:
            sub = f"{modname}.{name}"
            if sub in self.modules:
                return ModRef(sub)
            return None
        return self._binding(b, m, name, depth)

    def _binding(self, b, m, name, depth=0):
        if b[0] == "mod":
            if b[1] in self.modules:
                return ModRef(b[1])
            return Ext(b[1])
        if b[0] == "from":
            src, nm = b[1], b[2]
            if src in self.modules:
                r = self.lookup_global(src, nm, depth + 1)
                return r
            if src and (src == PKG or src.startswith(PKG + ".")):
                # compiled or missing module of the package
                return Ext(f"{src}.{nm}")
            return Ext(f"{src}.{nm}")
        if b[0] == "def":
            n = b[1]
            return getattr(n, "_func", None) or getattr(n, "_class", None)
        if b[0] == "var":
            # follow simple aliasing
            v = b[1]
            if isinstance(v, (ast.Name, ast.Attribute)) and depth < 8:
                r = self.resolve(v, m, None, depth + 1)
                if isinstance(r, (Func, Class, Ext, ModRef)):
                    return r
            return Var(m, name, v)
        return None

    def resolve(self, node, module, func=None, depth=0):
        """Resolve Name/Attribute chain to Func, Class, ModRef, Ext, Var or None (unknown/local)."""
        if isinstance(node, ast.Name):
            f = func
            while f is not None:
                if node.id in f.inner:
                    return f.inner[node.id]
                if node.id in f.locals_imports:
                    return self._binding(f.locals_imports[node.id], module, node.id, depth)
                if node.id in self.local_names(f):
                    for c in module.classes:
                        if c.parent_func is f and c.name == node.id:
                            return c
                    return None
                f = f.parent
            b = module.globals.get(node.id)
            if b is not None:
                return self._binding(b, module, node.id, depth)
            if node.id in BUILTINS:
                return Ext("builtins." + node.id)
            return None
        if isinstance(node, ast.Attribute):
            base = self.resolve(node.value, module, func, depth + 1)
            if isinstance(base, ModRef):
                return self.lookup_global(base.name, node.attr)
            if isinstance(base, Ext):
                return Ext(base.path + "." + node.attr)
            if isinstance(base, Class):
                m = base.lookup_attr(node.attr)
                return m if isinstance(m, Func) else None
            return None
        return None

    def local_names(self, f):
        if f._assigned is None:
            s = set(f.args) | set(f.kwonly)
            if f.vararg:
                s.add(f.vararg)
            if f.kwarg:
                s.add(f.kwarg)
            globs = set()
            for n in f.walk():
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, ast.Global):
                    globs.update(n.names)
            f._assigned = s - globs
        return f._assigned

    # ------------------------------------------------------------------ types
    def name_types(self):
        """attribute/parameter/variable name -> classes constructed and bound to that name anywhere."""
        if self._name_types is not None:
            return self._name_types
        out = {}

        def add(name, expr, m, f):
            for c in self.ctor_classes(expr, m, f):
                out.setdefault(name, set()).add(c)

        for m in self.modules.values():
            scopes = [(None, m.tree)]
            for f in m.funcs:
                for p, d in f.defaults.items():
                    add(p, d, m, f.parent)
                for p, ann in f.annotations.items():
                    for c in self.ann_classes(ann, m, f):
                        out.setdefault(p, set()).add(c)
                for n in f.walk():
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                add(t.id, n.value, m, f)
                            elif isinstance(t, ast.Attribute):
                                add(t.attr, n.value, m, f)
                    elif isinstance(n, ast.Call):
                        for k in n.keywords:
                            if k.arg:
                                add(k.arg, k.value, m, f)
        self._name_types = out
        return out

    def ann_classes(self, ann, m, f):
        out = []
        for n in ast.walk(ann):
            if isinstance(n, (ast.Name, ast.Attribute)):
                r = self.resolve(n, m, f)
                if isinstance(r, Class):
                    out.append(r)
        return out

    def ctor_classes(self, expr, m, f):
        out = []
        if isinstance(expr, ast.IfExp):
            return self.ctor_classes(expr.body, m, f) + self.ctor_classes(expr.orelse, m, f)
        if isinstance(expr, ast.BoolOp):
            for v in expr.values:
                out += self.ctor_classes(v, m, f)
            return out
        if isinstance(expr, ast.Call):
            r = self.resolve(expr.func, m, f)
            if isinstance(r, Class):
                out.append(r)
        return out

    # ----------------------------------------------------------------- calls
    def enclosing_class(self, f):
        while f is not None:
            if f.cls is not None:
                return f.cls
            if getattr(f, "owner", None) is not None:
                return f.owner
            f = f.parent
        return None

    def instance_targets(self, cls, name):
        """methods that a virtual call on an instance of cls (or a subclass) may reach"""
        out = set()
        for c in cls.family():
            t = c.lookup(name)
            if t is not None:
                out.add(t)
        return out

    def super_targets(self, f, name):
        cls = self.enclosing_class(f)
        out = set()
        if cls is None:
            return out
        for c in cls.family():
            t = c.lookup(name, after=cls)
            if t is not None:
                out.add(t)
        return out

    def call_targets(self, call, f, fallback=True):
        """-> list of Func (methods and functions that may be invoked) ; Ext for externals"""
        fn = call.func
        m = f.module
        r = self.resolve(fn, m, f)
        if isinstance(r, Func):
            return [r]
        if isinstance(r, Class):
            i = r.lookup("__init__")
            return [i] if i else []
        if isinstance(r, Ext):
            return [r]
        if isinstance(fn, ast.Attribute):
            v = fn.value
            # super().x
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                return sorted(self.super_targets(f, fn.attr), key=lambda x: x.id)
            # self.x
            sn = self.self_name(f)
            if isinstance(v, ast.Name) and v.id == sn:
                cls = self.enclosing_class(f)
                t = self.instance_targets(cls, fn.attr) if cls else set()
                if t:
                    return sorted(t, key=lambda x: x.id)
                # attribute that is itself callable: self.repair(...)
                return self._callable_attr(fn.attr)
            if isinstance(v, ast.Call):
                rc = self.resolve(v.func, m, f)
                if isinstance(rc, Class):
                    t = rc.lookup(fn.attr)
                    if t is not None:
                        return [t]
            # typed by name
            nm = v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None
            if nm:
                t = set()
                for c in self.types_of_name(nm, f, v):
                    t |= self.instance_targets(c, fn.attr)
                if t:
                    return sorted(t, key=lambda x: x.id)
            if fallback:
                return sorted(self.by_method.get(fn.attr, []), key=lambda x: x.id)
            return []
        if isinstance(fn, ast.Name):
            return self._callable_attr(fn.id)
        return []

    def types_of_name(self, nm, f, node):
        return self.name_types().get(nm, set())

    def _callable_attr(self, nm):
        out = set()
        for c in self.name_types().get(nm, set()):
            out |= self.instance_targets(c, "__call__")
        return sorted(out, key=lambda x: x.id)

    def self_name(self, f):
        while f is not None:
            if f.selfname:
                return f.selfname
            f = f.parent
        return None

    # ---------------------------------------------------------------- lookup
    def cls(self, name, required=True):
        """class by bare name or module:qual"""
        if ":" in name:
            c = self.classes.get(name)
        else:
            cs = [c for c in self.classes.values() if c.name == name]
            c = cs[0] if len(cs) == 1 else (cs[0] if cs else None)
        if c is None and required:
            raise AnchorMissing(f"class {name}")
        return c

    def func(self, fid, required=True):
        f = self.funcs.get(fid)
        if f is None and required:
            raise AnchorMissing(f"function {fid}")
        return f


class AnchorMissing(Exception):
    pass


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for e in t.elts for x in target_names(e)]
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return []


def bind_args(call, f, bound=None):
    """map parameter name -> argument expr for a call to Func f.

    Returns (mapping, star, dstar, extra_pos, extra_kw). `star`/`dstar` tell that *args/**kw are present.
    """
    params = f.params if bound is None or bound else list(f.args)
    m, extra = {}, []
    star = False
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            star = True
            continue
        if star:
            extra.append(a)
            continue
        if i < len(params):
            m[params[i]] = a
        else:
            extra.append(a)
    dstar = []
    xkw = {}
    for k in call.keywords:
        if k.arg is None:
            dstar.append(k.value)
        elif k.arg in params or k.arg in f.kwonly:
            m[k.arg] = k.value
        else:
            xkw[k.arg] = k.value
    return m, star, dstar, extra, xkw


def unparse(n, limit=100):
    try:
        s = " ".join(ast.unparse(n).split())
    except Exception:
        s = "?"
    return s if len(s) <= limit else s[: limit - 3] + "..."


# ---------------------------------------------------------------------- value typing helpers
def _local_assigns(self, f):
    """name -> list of value expressions assigned in f (simple names and self attributes 'self.x')"""
    if not hasattr(f, "_lassign"):
        d = {}
        for n in f.walk():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        d.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts) else [None] * len(t.elts)
                        for e, v in zip(t.elts, vs):
                            if isinstance(e, ast.Name):
                                d.setdefault(e.id, []).append(v)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                d.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr):
                d.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for nm in target_names(n.target):
                    d.setdefault(nm, []).append(None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for nm in target_names(n.optional_vars):
                    d.setdefault(nm, []).append(n.context_expr)
        f._lassign = d
    return f._lassign


def _attr_assigns(self, cls):
    """attribute name -> list of (func, value expr) of `self.x = value` in the methods of the family's mro"""
    if not hasattr(cls, "_aassign"):
        d = {}
        for c in cls.mro:
            if not isinstance(c, Class):
                continue
            for k, v in c.class_attrs.items():
                d.setdefault(k, []).append((None, v))
            for f in c.methods.values():
                sn = f.selfname
                for n in f.walk():
                    if isinstance(n, ast.Assign):
                        ts = [(t, n.value) for t in n.targets]
                    elif isinstance(n, ast.AnnAssign):
                        ts = [(n.target, n.value)]
                    elif isinstance(n, ast.AugAssign):
                        ts = [(n.target, None)]
                    else:
                        continue
                    for t, v in ts:
                        if isinstance(t, (ast.Tuple, ast.List)):
                            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
                            prs = list(zip(t.elts, vs))
                        else:
                            prs = [(t, v)]
                        for tt, vv in prs:
                            if isinstance(tt, ast.Attribute) and isinstance(tt.value, ast.Name) and tt.value.id == sn:
                                d.setdefault(tt.attr, []).append((f, vv))
        cls._aassign = d
    return cls._aassign


def _types_of(self, expr, f, depth=0):
    """set of package classes the expression's value may be an instance of (empty: unknown)"""
    if depth > 5 or expr is None:
        return set()
    m = f.module
    if isinstance(expr, ast.Call):
        r = self.resolve(expr.func, m, f)
        if isinstance(r, Class):
            return {r}
        if isinstance(r, Ext) and r.path == "copy.deepcopy" and expr.args:
            return self.types_of(expr.args[0], f, depth + 1)
        return set()
    if isinstance(expr, ast.IfExp):
        return self.types_of(expr.body, f, depth + 1) | self.types_of(expr.orelse, f, depth + 1)
    if isinstance(expr, ast.BoolOp):
        out = set()
        for v in expr.values:
            out |= self.types_of(v, f, depth + 1)
        return out
    if isinstance(expr, ast.Name):
        if expr.id == self.self_name(f):
            c = self.enclosing_class(f)
            return {c} if c else set()
        g = f
        while g is not None:
            la = self.local_assigns(g)
            if expr.id in la:
                out = set()
                for v in la[expr.id]:
                    if v is not None and not (isinstance(v, ast.Name) and v.id == expr.id):
                        out |= self.types_of(v, g, depth + 1)
                if out:
                    return out
            if expr.id in g.annotations:
                c = self.ann_classes(g.annotations[expr.id], m, g)
                if c:
                    return set(c)
            if expr.id in g.args or expr.id in g.kwonly:
                break
            g = g.parent
        return set(self.name_types().get(expr.id, set()))
    if isinstance(expr, ast.Attribute):
        if isinstance(expr.value, ast.Name) and expr.value.id == self.self_name(f):
            c = self.enclosing_class(f)
            if c is not None:
                out = set()
                for (g, v) in self.attr_assigns(c).get(expr.attr, []):
                    if v is None or g is None:
                        continue
                    if isinstance(v, ast.Name) and v.id == expr.attr:
                        out |= set(self.name_types().get(expr.attr, set()))
                        for cc in self.ann_classes(g.annotations[v.id], g.module, g) if v.id in g.annotations else []:
                            out.add(cc)
                    else:
                        out |= self.types_of(v, g, depth + 1)
                if out:
                    return out
        return set(self.name_types().get(expr.attr, set()))
    return set()


def _name_funcs(self):
    """name -> functions of the package bound to that name (defaults, keyword arguments, assignments)"""
    if getattr(self, "_nfuncs", None) is None:
        out = {}

        def add(name, expr, m, f):
            if isinstance(expr, ast.IfExp):
                add(name, expr.body, m, f)
                add(name, expr.orelse, m, f)
            elif isinstance(expr, (ast.Name, ast.Attribute, ast.Lambda)):
                r = expr._func if isinstance(expr, ast.Lambda) and hasattr(expr, "_func") else self.resolve(expr, m, f)
                if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name) and f is not None and expr.value.id == self.self_name(f):
                    c = self.enclosing_class(f)
                    r = c.lookup(expr.attr) if c else None
                if isinstance(r, Func):
                    out.setdefault(name, set()).add(r)
            elif isinstance(expr, ast.Call):
                r = self.resolve(expr.func, m, f)
                if isinstance(r, Ext) and r.path == "functools.partial" and expr.args:
                    add(name, expr.args[0], m, f)
            elif isinstance(expr, ast.Dict):
                for v in expr.values:
                    add(name, v, m, f)

        for m in self.modules.values():
            for f in m.funcs:
                for p, d in f.defaults.items():
                    add(p, d, m, f.parent)
                for n in f.walk():
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                add(t.id, n.value, m, f)
                            elif isinstance(t, ast.Attribute):
                                add(t.attr, n.value, m, f)
                    elif isinstance(n, ast.Call):
                        for k in n.keywords:
                            if k.arg:
                                add(k.arg, k.value, m, f)
                        # positional arguments to package callables
                        ts = []
                        r = self.resolve(n.func, m, f)
                        if isinstance(r, Func):
                            ts = [r]
                        elif isinstance(r, Class):
                            i = r.lookup("__init__")
                            ts = [i] if i else []
                        for t in ts:
                            b, *_ = bind_args(n, t)
                            for p, v in b.items():
                                add(p, v, m, f)
        self._nfuncs = out
    return self._nfuncs


Repo.local_assigns = _local_assigns
Repo.attr_assigns = _attr_assigns
Repo.types_of = _types_of
Repo.name_funcs = _name_funcs


# role names whose values are always members of one class family of the package
ROLES = {
    "sampling": "Sampling", "crossover": "Crossover", "mutation": "Mutation", "selection": "Selection",
    "survival": "Survival", "repair": "Repair", "mating": "InfillCriterion", "evaluator": "Evaluator",
    "problem": "Problem", "termination": "Termination", "eliminate_duplicates": "DuplicateElimination",
    "initialization": "Initialization", "pop": "Population", "off": "Population", "algorithm": "Algorithm",
    "infills": "Population", "decomposition": "Decomposition", "decomp": "Decomposition", "archive": "Archive",
    "callback": "Callback", "display": "Display", "output": "Output", "indicator": "Indicator",
    "ref_dirs_factory": "ReferenceDirectionFactory", "control": "ParameterControl", "truncation": "Truncation",
    "norm": "Normalization", "nds": "NonDominatedSorting", "variant": "InfillCriterion",
}


def _resolve_call(self, call, f, fallback=True):
    """targets of a call: list of Func / Ext. Precise where types are known, by method name otherwise."""
    key = (call, fallback)
    cache = self.__dict__.setdefault("_rc", {})
    if key in cache:
        return cache[key]
    out = self._resolve_call0(call, f, fallback)
    cache[key] = out
    return out


def _resolve_call0(self, call, f, fallback):
    fn, m = call.func, f.module
    r = self.resolve(fn, m, f)
    if isinstance(r, Func):
        return [r]
    if isinstance(r, Class):
        i = r.lookup("__init__")
        return [i] if i else []
    if isinstance(r, Ext):
        return [r]
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            return sorted(self.super_targets(f, fn.attr), key=lambda x: x.id)
        sn = self.self_name(f)
        if isinstance(v, ast.Name) and v.id == sn:
            cls = self.enclosing_class(f)
            t = self.instance_targets(cls, fn.attr) if cls else set()
            if t:
                return sorted(t, key=lambda x: x.id)
            return self.callable_targets(fn, f)
        t = set()
        for c in self.typeset(v, f):
            t |= self.instance_targets(c, fn.attr)
        if t:
            return sorted(t, key=lambda x: x.id)
        c = self.callable_targets(fn, f, roles=False)
        if c:
            return c
        if fallback:
            return sorted(self.by_method.get(fn.attr, []), key=lambda x: x.id)
        return []
    if isinstance(fn, ast.Name):
        return self.callable_targets(fn, f)
    if isinstance(fn, ast.Call):
        t = set()
        for c in self.typeset(fn, f):
            t |= self.instance_targets(c, "__call__")
        return sorted(t, key=lambda x: x.id)
    return []


def _typeset(self, expr, f):
    ts = set(self.types_of(expr, f))
    nm = expr.attr if isinstance(expr, ast.Attribute) else expr.id if isinstance(expr, ast.Name) else None
    if nm in ROLES and not (isinstance(expr, ast.Name) and nm in self.local_assigns(f) and ts):
        c = self.cls(ROLES[nm], required=False)
        if c is not None:
            ts.add(c)
    return ts


def user_callable(self, expr, f):
    """problem.callback and evaluator.callback are plain functions of the user, not Callback objects of an algorithm"""
    if isinstance(expr, ast.Attribute) and expr.attr == "callback" and isinstance(expr.value, ast.Name) and expr.value.id == self.self_name(f):
        c = self.enclosing_class(f)
        return c is not None and any(isinstance(k, Class) and k.name in ("Problem", "Evaluator") for k in c.mro)
    return False


def _callable_targets(self, expr, f, roles=True):
    nm = expr.attr if isinstance(expr, ast.Attribute) else expr.id
    out = set()
    if user_callable(self, expr, f):
        return []
    for c in self.typeset(expr, f):
        out |= self.instance_targets(c, "__call__")
    la = self.local_assigns(f).get(nm) if isinstance(expr, ast.Name) else None
    if la:
        for v in la:
            if isinstance(v, (ast.Name, ast.Attribute)):
                r = self.resolve(v, f.module, f)
                if isinstance(r, Func):
                    out.add(r)
    out |= self.name_funcs().get(nm, set())
    return sorted(out, key=lambda x: x.id)


Repo.resolve_call = _resolve_call
Repo._resolve_call0 = _resolve_call0
Repo.typeset = _typeset
Repo.callable_targets = _callable_targets


# ------------------------------------------------------------- receiver-class-sensitive resolution
NO_EXPAND = {"Problem"}      # families too wide to be useful as receiver contexts


def _recv_classes(self, expr, f, C, depth=0):
    """(classes, exact?) an expression may be an instance of, when `self` in f is exactly class C"""
    if expr is None or depth > 6:
        return set()
    m = f.module
    if isinstance(expr, ast.Name):
        if expr.id == self.self_name(f):
            return {C} if C is not None else set()
        g = f
        while g is not None:
            la = self.local_assigns(g)
            if expr.id in la:
                out = set()
                for v in la[expr.id]:
                    if v is not None and not (isinstance(v, ast.Name) and v.id == expr.id):
                        out |= self.recv_classes(v, g, C, depth + 1)
                if out:
                    return out
            if expr.id in g.annotations:
                c = self.ann_classes(g.annotations[expr.id], m, g)
                if c:
                    return self._expand(c)
            if expr.id in g.args or expr.id in g.kwonly:
                break
            g = g.parent
        return self._by_name(expr.id)
    if isinstance(expr, ast.Attribute):
        owners = self.recv_classes(expr.value, f, C, depth + 1) if depth < 4 else set()
        out = set()
        if len(owners) <= 12:
            for o in owners:
                for (g, v) in self.attr_assigns(o).get(expr.attr, []):
                    if v is None or g is None:
                        continue
                    if isinstance(v, ast.Name) and (v.id in g.args or v.id in g.kwonly) and v.id not in self.local_assigns(g):
                        # a constructor parameter: default value + everything bound to that name + role
                        d = g.defaults.get(v.id)
                        if d is not None:
                            out |= self.recv_classes(d, g.parent or g, None, depth + 1)
                        if v.id in g.annotations:
                            out |= self._expand(self.ann_classes(g.annotations[v.id], g.module, g))
                        out |= self._by_name(v.id)
                        # values passed by subclasses' super().__init__(name=...) and construction sites are covered by name
                    else:
                        out |= self.recv_classes(v, g, o, depth + 1)
        if out:
            return out
        return self._by_name(expr.attr)
    if isinstance(expr, ast.IfExp):
        return self.recv_classes(expr.body, f, C, depth + 1) | self.recv_classes(expr.orelse, f, C, depth + 1)
    if isinstance(expr, ast.BoolOp):
        out = set()
        for v in expr.values:
            out |= self.recv_classes(v, f, C, depth + 1)
        return out
    if isinstance(expr, ast.NamedExpr):
        return self.recv_classes(expr.value, f, C, depth + 1)
    if isinstance(expr, ast.Call):
        r = self.resolve(expr.func, m, f)
        if isinstance(r, Class):
            return {r}
        if isinstance(r, Ext) and r.path in ("copy.deepcopy", "copy.copy") and expr.args:
            return self.recv_classes(expr.args[0], f, C, depth + 1)
        if isinstance(r, Func):
            return self._ret_classes(r, None, depth + 1)
        if isinstance(expr.func, ast.Attribute):
            out = set()
            ts = self.ctx_targets(expr, f, C, depth + 1)
            if len(ts) <= 6:
                for (t, k) in ts:
                    if isinstance(t, Func):
                        out |= self._ret_classes(t, k, depth + 1)
            return out
    return set()


def _ret_classes(self, t, k, depth):
    if depth > 5:
        return set()
    key = (t, k)
    cache = self.__dict__.setdefault("_retc", {})
    if key in cache:
        return cache[key]
    cache[key] = set()
    out = set()
    for n in t.walk():
        if isinstance(n, ast.Return) and n.value is not None:
            out |= self.recv_classes(n.value, t, k, depth + 1)
    cache[key] = out
    return out


def _expand(self, classes):
    out = set()
    for c in classes:
        if c.name in NO_EXPAND:
            out.add(c)
        else:
            out |= c.family()
    return out


def _by_name(self, nm):
    cache = self.__dict__.setdefault("_bn", {})
    if nm not in cache:
        ts = set(self.name_types().get(nm, set()))
        if nm in ROLES:
            c = self.cls(ROLES[nm], required=False)
            ts = {x for x in ts if c is None or c in x.mro}
            if c is not None:
                ts.add(c)
        cache[nm] = self._expand(ts)
    return cache[nm]


def _ctx_targets(self, call, f, C, depth=0):
    """[(Func|Ext, receiver class or None)] for a call in f when self is exactly C"""
    key = (call, C)
    cache = self.__dict__.setdefault("_ct", {})
    if key in cache:
        return cache[key]
    cache[key] = []
    out = self._ctx0(call, f, C, depth)
    cache[key] = out
    return out


def _ctx0(self, call, f, C, depth):
    fn, m = call.func, f.module
    r = self.resolve(fn, m, f)
    if isinstance(r, Func):
        if r.is_method:
            # explicit Base.method(self, ...) call
            return [(r, C)]
        return [(r, C if r.parent is not None else None)]
    if isinstance(r, Class):
        i = r.lookup("__init__")
        return [(i, r)] if i else []
    if isinstance(r, Ext):
        return [(r, None)]
    out = []
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            enc = self.enclosing_class(f)
            if C is not None and enc is not None and enc in C.mro:
                t = C.lookup(fn.attr, after=enc)
                return [(t, C)] if t else []
            return [(t, None) for t in sorted(self.super_targets(f, fn.attr), key=lambda x: x.id)]
        rc = self.recv_classes(v, f, C, depth)
        for c in rc:
            t = c.lookup(fn.attr)
            if t is not None:
                out.append((t, c))
        if out:
            return sorted(set(out), key=lambda x: (x[0].id, x[1].id))
        return self._callable_ctx(fn, f, C, depth)
    if isinstance(fn, ast.Name):
        return self._callable_ctx(fn, f, C, depth)
    if isinstance(fn, ast.Call):
        for c in self.recv_classes(fn, f, C, depth):
            t = c.lookup("__call__")
            if t is not None:
                out.append((t, c))
        return out
    return []


def _callable_ctx(self, expr, f, C, depth):
    out = set()
    if user_callable(self, expr, f):
        return []
    for c in self.recv_classes(expr, f, C, depth):
        t = c.lookup("__call__")
        if t is not None:
            out.add((t, c))
    nm = expr.attr if isinstance(expr, ast.Attribute) else expr.id
    la = self.local_assigns(f).get(nm) if isinstance(expr, ast.Name) else None
    for v in la or []:
        if isinstance(v, (ast.Name, ast.Attribute)):
            r = self.resolve(v, f.module, f)
            if isinstance(r, Func):
                out.add((r, None))
            elif isinstance(v, ast.Attribute):
                for c in self.recv_classes(v.value, f, C, depth + 1):
                    t = c.lookup(v.attr)
                    if t is not None:
                        out.add((t, c))
    for t in self.name_funcs().get(nm, set()):
        out.add((t, t.cls))
    return sorted(out, key=lambda x: (x[0].id, x[1].id if x[1] else ""))


for _n, _f in [("recv_classes", _recv_classes), ("_ret_classes", _ret_classes), ("_expand", _expand), ("_by_name", _by_name),
               ("ctx_targets", _ctx_targets), ("_ctx0", _ctx0), ("_callable_ctx", _callable_ctx)]:
    setattr(Repo, _n, _f)


def _contexts(self, f):
    """receiver classes under which f can run (itself for methods: every class inheriting this definition)"""
    c = self.enclosing_class(f)
    if c is None:
        return [None]
    top = f
    while top.parent is not None:
        top = top.parent
    if top.cls is None:
        return [c]
    out = [k for k in c.family() if k.lookup(top.name) is top]
    # reached through super() from overriding classes too
    for k in c.family():
        if k not in out and any(isinstance(x, Class) and x is not top.cls and top.name in x.methods for x in k.mro[:k.mro.index(top.cls)]):
            out.append(k)
    return sorted(out, key=lambda x: x.id) or [c]


Repo.contexts = _contexts
