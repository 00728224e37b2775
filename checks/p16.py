"""P16 - names, calls and interfaces in the library resolve."""
import ast

import os
import re
import symtable
from pathlib import Path
from sa.model import *
from sa.util import *
from sa.paths import Walker
from sa.symb import Ctx

EXPLANATION = (
    "Name resolution and signature conformance over the whole package, on the parsed sources: every global name a function, class body or module refers to (scopes computed by the compiler's "
    "symbol tables) is bound somewhere in its module or is a builtin; every name imported from a module of the package is defined there; local variables are assigned before they are used on "
    "every path (path-sensitive, correlated tests are recognised, loop bodies are assumed to run); every call that resolves to functions of the package binds all required parameters and "
    "no unknown ones, for every class that inherits the calling method; attributes read from self and from super() are defined somewhere in the class family; properties are not called; "
    "unpacked results have the length the callee returns; no class that leaves a required method abstract is instantiated; functions taken from numpy and the standard library exist in the installed version; values are not passed in the place of another parameter than the one they are named after; "
    "format strings fit their values; the arguments of a construction are followed through **kwargs to the constructors of the bases; keywords a callee only swallows are reported when nothing in the package takes an argument of that name; "
    "objects the class (or function) itself constructs have the attributes read from them; values are asked of a solution only under names something in the package stores."
)
ASSUMPTIONS = ["attributes that are set from outside under a computed name (setattr, __dict__.update) are taken to exist", "a loop whose results are used afterwards runs at least once",
               "values passed on through **kwargs are followed between constructors only"]
TRANSPARENT = {"property", "staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod", "default_random_state", "Cache", "cached_property", "wraps", "functools.wraps", "typing.no_type_check", "overload"}
DUNDER = {"__dict__", "__class__", "__doc__", "__module__", "__name__", "__qualname__", "__annotations__"}


def run(repo, rep):
    rep.rule("undefined-name", "a name is used that is not defined in its scope, its module or among the builtins")
    rep.rule("missing-import", "a name is imported from a module of the package that does not define it")
    rep.rule("unbound-local", "a local variable is used on a path on which it was not assigned")
    rep.rule("wrong-arguments", "a call does not match the signature of the function it goes to")
    rep.rule("misplaced-argument", "a value is passed in the place of another parameter than the one it is named after, which gets none or is swapped with it")
    rep.rule("unknown-keyword", "a keyword is passed that the callee only swallows: nothing in the package takes an argument of this name")
    rep.rule("unknown-key", "a value is asked for under a name that nothing in the package stores a value under")
    rep.rule("wrong-format", "a format string and the values it is applied to do not fit")
    rep.rule("missing-member", "an attribute is read that nothing in the class family defines")
    rep.rule("not-callable", "a property is called like a method")
    rep.rule("wrong-unpack", "the number of values unpacked differs from the number returned")
    rep.rule("abstract-instance", "a class is instantiated that does not implement a method its base class requires")
    rep.rule("external-name", "a function is taken from numpy, or from the standard library, that the installed version does not have")
    rep.rule("missing-return", "a function that returns a value elsewhere ends without one after doing work")
    rep.rule("unraised-error", "an exception is built and dropped")
    rep.rule("unknown-attribute", "an attribute is read, or a method called, that no class of the package and none of the library types in use has")
    rep.rule("unset-attribute", "an attribute is read that only the constructor sets, and not on all of its paths")
    names(repo, rep)
    unset(repo, rep)
    imports(repo, rep)
    unbound(repo, rep)
    arguments(repo, rep)
    keywords(repo, rep)
    instances(repo, rep)
    constructions(repo, rep)
    formats(repo, rep)
    members(repo, rep)
    unpack(repo, rep)
    abstract(repo, rep)
    external(repo, rep)
    results(repo, rep)
    attributes(repo, rep)
    if not getattr(repo, "mini", False):
        for k, m in [("names_resolved", 8000), ("imports_resolved", 600), ("functions_followed", 1000), ("calls_checked", 2000), ("member_reads", 1200), ("unpackings", 30), ("instantiations", 300), ("numpy_names", 1500), ("attribute_reads", 1200), ("calls_by_name", 80), ("numpy_keywords", 150), ("value_functions", 500), ("fields_followed", 400)]:
            rep.floor(k, m)


def construct(f, what):
    return f"{f.id} {what}"


# ------------------------------------------------------------------ names
def module_names(repo, m, seen=None):
    """(names defined in a module, complete?)"""
    seen = set() if seen is None else seen
    if m in seen:
        return set(), True
    seen.add(m)
    out, ok = set(m.globals), True
    for _, _, src in m.stars:
        t = repo.modules.get(src)
        if t is None:
            ok = False
            continue
        s, o = module_names(repo, t, seen)
        out |= s
        ok = ok and o
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
    for st in m.tree.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and enclosing_func(m, n) is None:
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out, ok


MODULE_DUNDERS = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__", "__all__", "__debug__", "__annotations__"}


def names(repo, rep):
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        defined, complete = module_names(repo, m)
        if not complete:
            rep.notes.append(f"{m.name}: star import from outside the package, names not resolved")
            continue
        try:
            top = symtable.symtable(ast.unparse(m.tree) if m.touched else m.src, m.rel, "exec")
        except SyntaxError:
            continue
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name):
                lines.setdefault(n.id, []).append(n.lineno)
        stack = [top]
        while stack:
            t = stack.pop()
            stack.extend(t.get_children())
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                rep.count("names_resolved")
                if t is not top and not s.is_global():
                    continue
                if t is top and (s.is_assigned() or s.is_imported()):
                    continue
                if nm in defined or nm in BUILTINS or nm in MODULE_DUNDERS:
                    continue
                rep.add("undefined-name", f"{m.name} {t.get_name()} {nm}", f"{m.rel}:{(lines.get(nm) or ['?'])[0]} {t.get_name()}", f"the name {nm} is not defined")


# ------------------------------------------------------------------ imports
def imports(repo, rep):
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = repo._abs(m, n)
                if src is None or not (src == "pymoo" or src.startswith("pymoo.")):
                    continue
                t = repo.modules.get(src)
                if t is None:
                    if guarded(m, n) or compiled(repo, src):
                        continue
                    rep.add("missing-import", f"{m.name} {src}", f"{m.rel}:{n.lineno}", f"there is no module {src}")
                    continue
                defined, complete = module_names(repo, t)
                for a in n.names:
                    rep.count("imports_resolved")
                    if a.name == "*" or not complete or a.name in defined or f"{src}.{a.name}" in repo.modules or lazy(t) or compiled(repo, f"{src}.{a.name}"):
                        continue
                    if guarded(m, n):
                        continue
                    rep.add("missing-import", f"{m.name} {src}.{a.name}", f"{m.rel}:{n.lineno}", f"{src} does not define {a.name}")
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.startswith("pymoo."):
                        rep.count("imports_resolved")
                        if a.name not in repo.modules and not guarded(m, n) and not compiled(repo, a.name):
                            rep.add("missing-import", f"{m.name} {a.name}", f"{m.rel}:{n.lineno}", f"there is no module {a.name}")
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                f = enclosing_func(m, n)
                b = repo.resolve(n.value, m, f)
                if isinstance(b, ModRef) and b.name in repo.modules:
                    t = repo.modules[b.name]
                    rep.count("imports_resolved")
                    defined, complete = module_names(repo, t)
                    if complete and n.attr not in defined and f"{b.name}.{n.attr}" not in repo.modules and not lazy(t) and n.attr not in MODULE_DUNDERS and not compiled(repo, f"{b.name}.{n.attr}"):
                        rep.add("missing-import", f"{m.name} {b.name}.{n.attr}", f"{m.rel}:{n.lineno}", f"{b.name} does not define {n.attr}")


def lazy(t):
    """the module replaces itself or answers attribute access itself"""
    return any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in t.tree.body) or any(
        isinstance(n, ast.Assign) and any("sys.modules" in unparse(x) for x in n.targets) for n in ast.walk(t.tree))


def compiled(repo, name):
    """an extension module: its source (.pyx, .c) lies beside"""
    root = getattr(repo, "root", None)
    if root is None:
        return False
    p = Path(root) / name.replace(".", "/")
    return any(p.with_suffix(s).exists() for s in (".pyx", ".c", ".cpp")) or bool(list(p.parent.glob(p.name + ".*.so"))) or (p / "__init__.py").exists()


def guarded(m, n):
    """inside a try that expects the import to fail"""
    for a in ancestors(m, n):
        if isinstance(a, ast.Try) and a.handlers and any(n is x or any(n is y for y in ast.walk(x)) for x in a.body):
            return True
    return False


# ------------------------------------------------------------------ locals
class Bound(Walker):
    loops_once = True

    def __init__(self, repo, tracked, repeated, last):
        super().__init__(repo)
        self.last = last
        self.tracked, self.repeated, self.hits = tracked, repeated, {}

    def text(self, t):
        return " ".join(ast.unparse(t).split())

    def branch(self, test, ctx, s, taken):
        b, facts = s
        b = self.reads(test, ctx, b)
        b = frozenset(b | {n.target.id for n in ast.walk(test) if isinstance(n, ast.NamedExpr)} & self.tracked)
        t, want = norm_test(test, taken)
        if t in self.repeated:
            d = dict(facts)
            if t in d and d[t] != want:
                return None
            if t in self.last and not want and all(d.get(k) is False for k in self.last[t]):
                return None
            # x == "a" excludes x == "b"
            if want and " == " in t:
                l, r = t.split(" == ", 1)
                for k, v in d.items():
                    if v and k.startswith(l + " == ") and k != t:
                        return None
            d[t] = want
            facts = tuple(sorted(d.items()))
        return (b, facts)

    def reads(self, e, ctx, b):
        for n in own_walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.tracked and n.id not in b:
                self.hits.setdefault(n.id, n)
        return b

    def assign(self, names, s):
        b, facts = s
        names = set(names)
        facts = tuple((k, v) for k, v in facts if not (set(ident(k)) & names))
        return (frozenset(b | (names & self.tracked)), facts)

    def expr(self, e, ctx, states, o):
        if e is None or not states:
            return set(states)
        for s in states:
            self.reads(e, ctx, s[0])
        extra = {n.target.id for n in own_walk(e) if isinstance(n, ast.NamedExpr)}
        st = {self.assign(extra, s) for s in states} if extra else set(states)
        # only calls matter for exception flow
        for seen in self.stack:
            seen |= st
        return st

    def event(self, n, ctx, s):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in self.tracked and n.target.id not in s[0]:
                self.hits.setdefault(n.target.id, n.target)
            if isinstance(n, ast.AnnAssign) and n.value is None:
                return s
            return self.assign({x for t in ts for x in target_names(t)}, s)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return self.assign(target_names(n.target), s)
        if isinstance(n, ast.withitem) and n.optional_vars is not None:
            return self.assign(target_names(n.optional_vars), s)
        if isinstance(n, ast.Delete):
            b, facts = s
            return (b - {t.id for t in n.targets if isinstance(t, ast.Name)}, facts)
        return s

    def stmt(self, st, ctx, states):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            o = super().stmt(st, ctx, states)
            o.fall = {self.assign({st.name}, s) for s in o.fall}
            return o
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            o = super().stmt(st, ctx, states)
            o.fall = {self.assign({(a.asname or a.name).split(".")[0] for a in st.names}, s) for s in o.fall}
            return o
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            from sa.paths import Out
            o = Out()
            cur = self.expr(st.value, ctx, states, o)
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if not isinstance(t, ast.Name):
                    cur = self.expr(t, ctx, cur, o)
            o.fall = self.each(st, ctx, cur)
            return o
        if isinstance(st, ast.Match):
            raise RuntimeError("match")
        return super().stmt(st, ctx, states)


def own_walk(e):
    """nodes of an expression without lambdas; names bound by comprehensions are not reads of the function's variables"""
    stack, hidden = [(e, frozenset())], None
    while stack:
        n, hide = stack.pop()
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            hide = hide | {x for g in n.generators for x in target_names(g.target)}
        if isinstance(n, ast.Name) and n.id in hide:
            continue
        yield n
        stack.extend((c, hide) for c in ast.iter_child_nodes(n))


def ident(t):
    import re
    return re.findall(r"[A-Za-z_]\w*", t)


def norm_test(t, taken):
    """a test and its negation have one text"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return norm_test(t.operand, not taken)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        inv = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}.get(type(t.ops[0]))
        if inv is not None:
            u = ast.Compare(left=t.left, ops=[inv()], comparators=t.comparators)
            return " ".join(ast.unparse(ast.fix_missing_locations(u)).split()), not taken
    return " ".join(ast.unparse(t).split()), taken


def leaf_tests(t):
    if isinstance(t, ast.BoolOp):
        for v in t.values:
            yield from leaf_tests(v)
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        yield from leaf_tests(t.operand)
    else:
        yield t


def unbound(repo, rep):
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if isinstance(f.node, ast.Lambda):
            continue
        rep.count("functions_followed")
        loc = {n.id for n in f.walk() if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and own(f, n)}
        for n in f.walk():
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                loc |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
        decl = {x for n in f.walk() if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        ps = set(f.args) | set(f.kwonly) | {f.vararg, f.kwarg}
        tracked = loc - decl - ps
        # assigned at the top level of the body before any other use: cannot be unbound
        tracked -= early(f)
        handlers = {h.name for n in f.walk() if isinstance(n, ast.Try) for h in n.handlers if h.name}
        tracked -= handlers
        if not tracked:
            continue
        tests = [x for n in f.walk() if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)) for x in leaf_tests(n.test)]
        texts = [norm_test(t, True)[0] for t in tests]
        lefts = [t.split(" == ")[0] for t in texts if " == " in t]
        repeated = {t for t in texts if texts.count(t) > 1 or (" == " in t and lefts.count(t.split(" == ")[0]) > 1)}
        chains = {}
        for n in f.walk():
            if isinstance(n, ast.If):
                t = norm_test(n.test, True)[0]
                if isinstance(n.test, ast.Compare) and " == " in t and any(isinstance(x, ast.Constant) for x in [n.test.left] + n.test.comparators):
                    subject = t.split(" == ")[1 if isinstance(n.test.left, ast.Constant) else 0]
                    chains.setdefault(subject, []).append((n.lineno, t))
        # a choice among three or more constants names all of them
        last = {max(v)[1]: {t for _, t in v} - {max(v)[1]} for v in chains.values() if len(v) >= 3}
        repeated |= set(last) | {t for v in last.values() for t in v}
        w = Bound(repo, tracked, repeated, last)
        try:
            w.run(f, Ctx(repo, f, cls=f.cls), {(frozenset(), ())})
        except RuntimeError:
            rep.count("functions_with_too_many_paths")
            continue
        for nm, n in sorted(w.hits.items()):
            rep.add("unbound-local", construct(f, nm), f"{f.module.rel}:{n.lineno} {f.qual}", f"{nm} may be used before it is assigned")


class Fields(ast.NodeTransformer):
    """attributes of self as variables"""
    def __init__(self, selfname):
        self.s = selfname

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == self.s:
            return ast.copy_location(ast.Name(id="field_" + n.attr, ctx=n.ctx), n)
        return n


def unset(repo, rep):
    """attributes that only the constructor sets, and not on all of its paths"""
    for c in sorted(repo.classes.values(), key=lambda c: c.id):
        f = c.methods.get("__init__")
        if f is None:
            continue
        mine = {n.attr for n in f.walk() if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.selfname}
        rep.count("fields_followed", len(mine))
        group = set(c.family()) | {k for k in c.mro if isinstance(k, Class)}
        others = set()
        for k in group:
            others |= set(k.class_attrs) | set(k.methods)
            for nm, m in k.methods.items():
                if m is not f:
                    others |= {n.attr for n in m.walk() if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        mine -= others
        node = Fields(f.selfname).visit(ast.parse(ast.unparse(f.node)).body[0])
        tests = [x for n in ast.walk(node) if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)) for x in leaf_tests(n.test)]
        if not tests and not any(isinstance(n, (ast.Return, ast.Try)) for n in ast.walk(node)):
            continue
        texts = [norm_test(t, True)[0] for t in tests]
        lefts = [t.split(" == ")[0] for t in texts if " == " in t]
        repeated = {t for t in texts if texts.count(t) > 1 or (" == " in t and lefts.count(t.split(" == ")[0]) > 1)}
        tracked = frozenset("field_" + x for x in mine)
        w = Bound(repo, set(tracked), repeated, {})
        try:
            states = set()
            o = w.block(node.body, Ctx(repo, f, cls=f.cls), {(frozenset(), ())})
            states = o.fall | o.ret
        except RuntimeError:
            continue
        for x in sorted(mine):
            if all("field_" + x in s[0] for s in states):
                continue
            reads = [(m, n) for k in group for m in k.methods.values() if m is not f for n in m.walk()
                     if isinstance(n, ast.Attribute) and n.attr == x and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == m.selfname and not probed(m, n, x) and not told(m, n)]
            for m, n in reads[:1]:
                rep.add("unset-attribute", f"{c.id} {x}", f"{m.module.rel}:{n.lineno} {m.qual}", f"{x} is read, but {c.name}.__init__ does not set it on every path")


def told(m, n):
    """a test of the object's own attributes comes first: which attributes exist may follow from it"""
    return any(isinstance(x, (ast.If, ast.IfExp, ast.While)) and x.lineno <= n.lineno and any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == m.selfname for y in ast.walk(x.test))
               for x in m.walk())


def own(f, n):
    """not the target of a comprehension"""
    for a in ancestors(f.module, n):
        if isinstance(a, ast.comprehension):
            return False
        if isinstance(a, ast.stmt):
            return True
    return True


def early(f):
    out, used = set(), set()
    for st in f.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                used.add(n.id)
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                for nm in target_names(t):
                    if nm not in used or nm in out:
                        out.add(nm)
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    used.add(n.id)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in st.names} - used
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name not in used:
            out.add(st.name)
    deleted = {t.id for n in f.walk() if isinstance(n, ast.Delete) for t in n.targets if isinstance(t, ast.Name)}
    return out - deleted


# ------------------------------------------------------------------ arguments
def plain(t):
    return all((d or "").split(".")[-1] in {x.split(".")[-1] for x in TRANSPARENT} for d in t.decorator_names())


def targets_of(repo, call, f):
    """(Func, class or None) pairs the call certainly goes to"""
    fn = call.func
    r = repo.resolve(fn, f.module, f)
    if isinstance(r, Func):
        if r.is_method and not r.is_static and isinstance(fn, ast.Attribute) and isinstance(repo.resolve(fn.value, f.module, f), Class) and not r.is_classmethod:
            return [(r, "unbound")]
        if r.is_method and isinstance(fn, ast.Name):
            return []
        return [(r, None)]
    if isinstance(r, Class):
        if "__new__" in {n for k in r.mro if isinstance(k, Class) for n in k.methods}:
            return []
        for k in r.mro:
            if not isinstance(k, Class):
                return []
            if "__init__" in k.methods:
                return [(k.methods["__init__"], None)]
        return []
    if isinstance(r, Ext):
        return []
    if isinstance(fn, ast.Attribute):
        v = fn.value
        c = repo.enclosing_class(f)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None and f.cls is not None:
            out = set()
            for k in c.family():
                if k.lookup(f.name) is not f and not any(x is c for x in k.mro):
                    continue
                mro = list(k.mro)
                if c not in mro:
                    continue
                for x in mro[mro.index(c) + 1:]:
                    if not isinstance(x, Class):
                        break
                    if fn.attr in x.methods:
                        out.add(x.methods[fn.attr])
                        break
            return [(t, "unbound" if t.name == "__new__" else None) for t in sorted(out, key=lambda t: t.id)]
        if isinstance(v, ast.Name) and v.id == f.selfname and c is not None and f.cls is not None:
            out = set()
            stored = any(isinstance(n, ast.Attribute) and n.attr == fn.attr and isinstance(n.ctx, ast.Store) for k in c.family() | {x for x in c.mro if isinstance(x, Class)} for m in k.methods.values() for n in m.walk())
            if stored:
                return []
            for k in c.family():
                if k.lookup(f.name) is f:
                    t = k.lookup(fn.attr)
                    if t is not None:
                        out.add(t)
            return [(t, None) for t in sorted(out, key=lambda t: t.id)]
        k = exact(repo, v, f)
        if k is not None:
            t = k.lookup(fn.attr)
            if t is not None and not any(isinstance(n, ast.Attribute) and n.attr == fn.attr and isinstance(n.ctx, ast.Store) for x in k.mro if isinstance(x, Class) for m in x.methods.values() for n in m.walk()):
                return [(t, None)]
    return []


def exact(repo, v, f):
    """the class a receiver certainly is an instance of: everything it is bound to is a construction of that class"""
    if isinstance(v, ast.Call):
        return one_class(repo, [(v, f)])
    if isinstance(v, ast.Name):
        if v.id in f.args or v.id in f.kwonly or v.id not in repo.local_assigns(f):
            return None
        return one_class(repo, [(x, f) for x in repo.local_assigns(f)[v.id]])
    c = repo.enclosing_class(f)
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == repo.self_name(f) and c is not None:
        vs = []
        for k in c.family():
            if any(v.attr in x.methods for x in k.mro if isinstance(x, Class)):
                return None
            vs += [(x, g) for g, x in repo.attr_assigns(k).get(v.attr, [])]
        vs = [(x, g) for x, g in vs if not (isinstance(x, ast.Constant) and x.value is None)]
        return one_class(repo, vs)
    return None


def one_class(repo, vs):
    ks = set()
    for x, g in vs:
        if not isinstance(x, ast.Call):
            return None
        r = repo.resolve(x.func, g.module, g) if g is not None else None
        if not isinstance(r, Class) or "__new__" in {n for k in r.mro if isinstance(k, Class) for n in k.methods}:
            return None
        ks.add(r)
    return ks.pop() if len(ks) == 1 else None


def mismatch(call, t, how):
    if how == "unbound":
        params = list(t.args)
    else:
        params = list(t.params)
    extra_ok = {"random_state", "seed"} if any((d or "").split(".")[-1] == "default_random_state" for d in t.decorator_names()) else set()
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if npos > len(params) and not t.vararg:
        return f"{npos} positional arguments for {len(params)} parameters"
    given = set(params[:npos]) if not star else set()
    kws = {k.arg for k in call.keywords if k.arg}
    unknown = kws - set(params) - set(t.kwonly) - extra_ok
    unknown |= kws & (set(t.posonly))
    if unknown and not t.kwarg:
        return f"unexpected argument {', '.join(sorted(unknown))}"
    dup = given & kws
    if dup:
        return f"{', '.join(sorted(dup))} given twice"
    if not star and not dstar:
        missing = [p for p in params + t.kwonly if p not in t.defaults and p not in given and p not in kws and p not in extra_ok]
        if missing:
            return f"missing argument {', '.join(missing)}"
    return None


def arguments(repo, rep):
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        for n in f.walk():
            if isinstance(n, ast.Call):
                check_call(repo, rep, n, f, f.module, f.qual, f.id)
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and enclosing_func(m, n) is None:
                    r = repo.resolve(n.func, m, None)
                    ts = []
                    if isinstance(r, Func) and not r.is_method:
                        ts = [(r, None)]
                    elif isinstance(r, Class):
                        ts = [(k.methods["__init__"], None) for k in r.mro if isinstance(k, Class) and "__init__" in k.methods][:1]
                    judge_call(rep, n, ts, m, "module", m.name)


def check_call(repo, rep, n, f, m, qual, cid):
    r = repo.resolve(n.func, m, f)
    if not isinstance(r, (Func, Class, Ext)) and isinstance(n.func, ast.Attribute):
        called_property(repo, rep, n, f)
    judge_call(rep, n, targets_of(repo, n, f), m, qual, cid)


def judge_call(rep, n, ts, m, qual, cid):
    for t, how in ts:
        if not plain(t) or any(d == "property" for d in t.decorator_names()):
            continue
        rep.count("calls_checked")
        why = mismatch(n, t, how)
        if why:
            rep.add("wrong-arguments", f"{cid} {t.qual}", f"{m.rel}:{n.lineno} {qual}", f"`{unparse(n, 80)}` does not match {t.qual} ({t.module.rel}:{t.lineno}): {why}")
            continue
        why = misplaced(n, t, how)
        if why:
            rep.add("misplaced-argument", f"{cid} {t.qual}", f"{m.rel}:{n.lineno} {qual}", f"`{unparse(n, 80)}` goes to {t.qual} ({t.module.rel}:{t.lineno}): {why}")


def misplaced(call, t, how):
    """`f(a, c)` for f(a, b=None, c=None), or `f(b, a)` for f(a, b) with names that say more than a position"""
    if any(isinstance(a, ast.Starred) for a in call.args):
        return None
    params = list(t.args) if how == "unbound" else list(t.params)
    kws = {k.arg for k in call.keywords}
    got = {p: (a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) else None) for a, p in zip(call.args, params)}
    for p, nm in got.items():
        if nm is None or nm == p or nm in kws or nm not in params + t.kwonly or p == "_" or list(got.values()).count(nm) > 1:
            continue
        if nm not in got:
            if p in t.defaults and nm in t.defaults:
                return f"{nm} is passed for the parameter {p}, and the parameter {nm} is left out"
        elif got[nm] == p and min(len(nm), len(p)) > 4:
            return f"{nm} is passed for the parameter {p} and {p} for the parameter {nm}"
    return None


def formats(repo, rep):
    """`"%s %s" % (a,)` and `"{} {}".format(a)`"""
    import string
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            why = None
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                rep.count("formats")
                specs = re.findall(r"%(?:\((\w+)\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])", n.left.value)
                if any(x[0] for x in specs) or any("*" in x for x in specs):
                    continue
                k = len([x for x in specs if x[3] != "%"])
                if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
                    if k != len(n.right.elts):
                        why = f"{k} places, {len(n.right.elts)} values"
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.List)) and k != 1:
                    why = f"{k} places, one value"
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                rep.count("formats")
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                try:
                    fields = [x[1] for x in string.Formatter().parse(n.func.value.value) if x[1] is not None]
                except ValueError as e:
                    why = str(e)
                    fields = []
                heads = [re.split(r"[.\[]", x)[0] for x in fields]
                if all(h == "" for h in heads):
                    need = len(heads)
                else:
                    need = max([int(h) + 1 for h in heads if h.isdigit()] or [0])
                missing = [h for h in heads if h and not h.isdigit() and h not in {k.arg for k in n.keywords}]
                if need > len(n.args):
                    why = f"{need} places, {len(n.args)} values"
                elif missing:
                    why = f"nothing is given for {missing[0]}"
            if why:
                f = enclosing_func(m, n)
                rep.add("wrong-format", f"{f.id if f else m.name} {why}", f"{m.rel}:{n.lineno}", f"`{unparse(n, 80)}`: {why}")


class Chains:
    """constructing a class with the keywords written at the call: what arrives at the constructors of its bases through **kwargs"""

    def __init__(self, repo):
        self.repo = repo

    def build(self, C, npos, kws):
        if "__new__" in {n for k in C.mro if isinstance(k, Class) for n in k.methods}:
            return None
        return self.init(C, list(C.mro), npos, kws, 0)

    def init(self, C, mro, npos, kws, depth):
        t = next(((k, i) for i, k in enumerate(mro) if not isinstance(k, Class) or "__init__" in k.methods), None)
        if t is None or not isinstance(t[0], Class) or depth > 8:
            return None
        k, i = t
        g = k.methods["__init__"]
        if not plain(g):
            return None
        params = list(g.params)
        if g.vararg:
            return None
        if npos > len(params):
            return None if depth == 0 else f"{k.name}.__init__ gets {npos} positional arguments for {len(params)} parameters"
        given = set(params[:npos]) | (kws & (set(params) | set(g.kwonly)))
        missing = [p for p in params + g.kwonly if p not in g.defaults and p not in given]
        if missing:
            return f"{k.name}.__init__ ({g.module.rel}:{g.lineno}) gets no {', '.join(missing)}" if depth else None
        rest = kws - set(params) - set(g.kwonly)
        if rest and not g.kwarg:
            return f"{k.name}.__init__ ({g.module.rel}:{g.lineno}) gets an unexpected {', '.join(sorted(rest))}" if depth else None
        if (set(params[:npos]) & kws):
            return f"{k.name}.__init__ gets {', '.join(sorted(set(params[:npos]) & kws))} twice" if depth else None
        # the call of the next constructor: certain to happen, with the keyword arguments untouched
        if g.kwarg:
            uses = [n for n in ast.walk(g.node) if isinstance(n, ast.Name) and n.id == g.kwarg]
            calls = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and any(x.arg is None and isinstance(x.value, ast.Name) and x.value.id == g.kwarg for x in n.keywords)]
            if len(uses) != len(calls):
                return None
        for st in g.body:
            if isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.Return)) and any(isinstance(n, (ast.Return,)) for n in ast.walk(st)):
                return None
            c = st.value if isinstance(st, ast.Expr) else None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "__init__" and isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super" and not c.func.value.args:
                if any(isinstance(a, ast.Starred) for a in c.args) or any(x.arg is None and not (isinstance(x.value, ast.Name) and x.value.id == g.kwarg) for x in c.keywords):
                    return None
                named = {x.arg for x in c.keywords if x.arg}
                passed = rest if any(x.arg is None for x in c.keywords) else set()
                if named & passed:
                    return f"`{unparse(c, 60)}` ({g.module.rel}:{c.lineno}) passes {', '.join(sorted(named & passed))} twice"
                return self.init(C, mro[i + 1:], len(c.args), named | passed, depth + 1)
        return None


def constructions(repo, rep):
    ch = Chains(repo)
    for C in sorted(repo.classes.values(), key=lambda c: c.id):
        g = C.lookup("__init__")
        if isinstance(g, Func):
            rep.count("constructors_followed")
            need = [p for p in g.params if p not in g.defaults]
            why = ch.build(C, len(need), {p for p in g.kwonly if p not in g.defaults}) or ch.build(C, 0, set(g.params) | set(g.kwonly))
            if why:
                rep.add("wrong-arguments", f"{C.id} through its bases", f"{C.module.rel}:{g.lineno} {C.name}", f"{C.name} cannot be constructed with the arguments its constructor names: {why}")
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            f = enclosing_func(m, n)
            C = repo.resolve(n.func, m, f)
            if isinstance(C, Class):
                rep.count("constructions_followed")
                why = ch.build(C, len(n.args), {k.arg for k in n.keywords})
                if why:
                    rep.add("wrong-arguments", f"{f.id if f else m.name} {C.name} through its bases", f"{m.rel}:{n.lineno}", f"`{unparse(n, 80)}`: {why}")


def called_property(repo, rep, n, f):
    v, nm = n.func.value, n.func.attr
    c = repo.enclosing_class(f)
    ks = []
    if isinstance(v, ast.Name) and v.id == f.selfname and c is not None:
        ks = [k for k in c.family() if f.cls is not None and k.lookup(f.name) is f]
    for k in sorted(ks, key=lambda k: k.id):
        t = k.lookup(nm)
        if t is not None and is_property(t):
            if returns_callable(repo, t):
                continue
            rep.add("not-callable", construct(f, nm), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 60)}` calls the property {t.qual} ({t.module.rel}:{t.lineno})")
            return


def is_property(t):
    return any(d in ("property", "cached_property", "functools.cached_property") or d and d.endswith((".setter", ".getter")) for d in t.decorator_names())


def returns_callable(repo, t):
    return any(isinstance(n, ast.Return) and isinstance(n.value, (ast.Lambda,)) for n in t.walk()) or any(
        isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and "func" in n.value.attr for n in t.walk())


# ------------------------------------------------------------------ members
def facts(repo):
    """attributes stored on self per class, attributes stored on anything else, classes that set attributes under computed names"""
    if "_p16_facts" in repo.__dict__:
        return repo.__dict__["_p16_facts"]
    stores = {}
    anywhere = set()
    dynamic = set()
    for f in repo.funcs.values():
        c = repo.enclosing_class(f)
        sn = repo.self_name(f)
        for n in f.walk():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id == sn and c is not None:
                    stores.setdefault(c, set()).add(n.attr)
                else:
                    anywhere.add(n.attr)
            elif isinstance(n, ast.Call):
                nm = dotted(n.func) or ""
                if nm in ("setattr", "object.__setattr__") and len(n.args) >= 2:
                    if isinstance(n.args[1], ast.Constant):
                        anywhere.add(n.args[1].value)
                    elif c is not None and isinstance(n.args[0], ast.Name) and n.args[0].id == sn:
                        dynamic.add(c)
                if nm.endswith("__dict__.update") and c is not None:
                    dynamic.add(c)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ("__dict__", "__class__") for t in n.targets) and c is not None:
                dynamic.add(c)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == "__dict__" and c is not None:
                if isinstance(n.slice, ast.Constant):
                    stores.setdefault(c, set()).add(n.slice.value)
                else:
                    dynamic.add(c)
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and enclosing_func(m, n) is None:
                anywhere.add(n.attr)
    repo.__dict__["_p16_facts"] = stores, anywhere, dynamic
    return stores, anywhere, dynamic


def members(repo, rep):
    stores, anywhere, dynamic = facts(repo)

    def external(k):
        bad = False
        for x in k.mro:
            if isinstance(x, Class):
                if x in dynamic or any(nm in x.methods for nm in ("__getattr__", "__getattribute__")):
                    bad = True
            elif getattr(x, "path", str(x)) not in ("builtins.object", "abc.ABC", "typing.Generic", "object", "ABC"):
                bad = True
        return bad

    def defines(k, nm):
        for x in k.mro:
            if isinstance(x, Class) and (nm in x.methods or nm in x.class_attrs or nm in stores.get(x, ()) or any(nm == c.name for c in x.module.classes if c.qual == x.qual + "." + nm)):
                return True
        return False

    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        c, sn = repo.enclosing_class(f), repo.self_name(f)
        if c is None or sn is None:
            continue
        fam = c.family()
        if any(external(k) for k in fam):
            fam = {k for k in fam if not external(k)}
            if c not in fam:
                continue
        top = f
        while top.parent is not None:
            top = top.parent
        for n in f.walk():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                nm = n.attr
                if isinstance(n.value, ast.Name) and n.value.id == sn:
                    rep.count("member_reads")
                    if nm in DUNDER or nm in anywhere or nm.startswith("__") and hasattr(object, nm):
                        continue
                    if probed(f, n, nm):
                        continue
                    if not any(defines(k, nm) for k in c.family()):
                        # a mixin: some class it is combined with may define it
                        if any(defines(x, nm) for k in c.family() for x in k.mro if isinstance(x, Class)):
                            continue
                        rep.add("missing-member", f"{c.id} {nm}", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n)}`: nothing in {c.name} or the classes around it defines {nm}")
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and f.cls is not None:
                    rep.count("member_reads")
                    if hasattr(object, nm):
                        continue
                    for k in sorted(fam, key=lambda k: k.id):
                        mro = list(k.mro)
                        if c not in mro:
                            continue
                        rest = mro[mro.index(c) + 1:]
                        if any(not isinstance(x, Class) and getattr(x, "path", "") not in ("builtins.object", "abc.ABC") for x in rest):
                            break
                        if any(isinstance(x, Class) and (nm in x.methods or nm in x.class_attrs) for x in rest):
                            break
                    else:
                        rep.add("missing-member", f"{c.id} super {nm}", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n)}`: no base class of {c.name} defines {nm}")


def held(repo, e, g, depth=0):
    """classes of the package of which the expression can be a fresh instance"""
    if e is None or g is None or depth > 4:
        return set()
    if isinstance(e, ast.IfExp):
        return held(repo, e.body, g, depth + 1) | held(repo, e.orelse, g, depth + 1)
    if isinstance(e, ast.BoolOp):
        return set().union(*[held(repo, x, g, depth + 1) for x in e.values])
    if isinstance(e, ast.Call):
        r = repo.resolve(e.func, g.module, g)
        return {r} if isinstance(r, Class) else set()
    if isinstance(e, ast.Name):
        out = set()
        if e.id in g.defaults:
            out |= held(repo, g.defaults[e.id], g, depth + 1)
        for v in repo.local_assigns(g).get(e.id, []):
            out |= held(repo, v, g, depth + 1)
        return out
    return set()


def lacks(repo, K, nm):
    """no instance of exactly this class has the attribute"""
    stores, anywhere, dynamic = facts(repo)
    if nm != "__call__" and (nm in anywhere or nm in DUNDER or hasattr(object, nm)):
        return False
    for k in K.mro:
        if isinstance(k, Class):
            if k in dynamic or "__getattr__" in k.methods or "__getattribute__" in k.methods or "__new__" in k.methods or k.node.decorator_list or k.node.keywords:
                return False
            if nm in k.methods or nm in k.class_attrs or nm in stores.get(k, ()) or any(nm == c.name for c in k.module.classes if c.qual == k.qual + "." + nm):
                return False
        else:
            d = getattr(k, "path", str(k)).split(".")[-1]
            if d in ("list", "dict", "set", "tuple", "str"):
                if hasattr({"list": list, "dict": dict, "set": set, "tuple": tuple, "str": str}[d], nm):
                    return False
            elif d not in ("object", "ABC"):
                return False
    return True


def instances(repo, rep):
    """attributes of objects that the class itself, or the function, has put together"""
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        C, sn = repo.enclosing_class(f), repo.self_name(f)
        seen = set()
        for n in f.walk():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                v, nm = n.value, n.attr
            elif isinstance(n, ast.Call):
                v, nm = n.func, "__call__"
            else:
                continue
            found = None
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == sn and C is not None and f.cls is not None:
                a = v.attr
                for X in sorted(C.family(), key=lambda k: k.id):
                    if C not in X.mro or X.lookup(f.name) is not f or any(isinstance(k, Class) and (a in k.methods or a in k.setters) for k in X.mro):
                        continue
                    for k in X.mro:
                        if not isinstance(k, Class):
                            break
                        vals = [(g, e) for g, e in repo.attr_assigns(k).get(a, []) if g is not None and repo.enclosing_class(g) is k]
                        for K in {K for g, e in vals for K in held(repo, e, g)}:
                            rep.count("attribute_holders")
                            if lacks(repo, K, nm):
                                found = found or (X, K)
                        if vals:
                            break
            elif isinstance(v, (ast.Name, ast.Call)):
                K = exact(repo, v, f)
                if K is not None and not (isinstance(v, ast.Name) and repo.resolve(v, f.module, f) is not None and v.id not in repo.local_assigns(f)):
                    rep.count("attribute_holders")
                    if lacks(repo, K, nm):
                        found = (None, K)
            if found and (unparse(v), nm) not in seen and not asked(f, v):
                seen.add((unparse(v), nm))
                X, K = found
                rep.add("unknown-attribute", construct(f, f"{unparse(v, 40)}.{nm}"), f"{f.module.rel}:{n.lineno} {f.qual}",
                        f"`{unparse(n, 60)}`: {unparse(v, 40)} can be {'an' if K.name[0] in 'AEIOU' else 'a'} {K.name}{' in ' + X.name if X else ''}, which {'cannot be called' if nm == '__call__' else 'has no ' + nm}")


def asked(f, v):
    """the function asks what the object is"""
    d = ast.dump(v).replace("Store()", "Load()")
    for n in f.walk():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "getattr", "callable", "issubclass", "type") and n.args and ast.dump(n.args[0]) == d:
            return True
    return False


def probed(f, n, nm):
    """hasattr/getattr of that name guards the read, or an AttributeError is expected"""
    for x in f.walk():
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) >= 2 and isinstance(x.args[1], ast.Constant) and x.args[1].value == nm:
            return True
    for a in ancestors(f.module, n):
        if isinstance(a, ast.Try) and a.handlers and any(h.type is None or "AttributeError" in unparse(h.type) or unparse(h.type) == "Exception" for h in a.handlers):
            return True
    return False


# ------------------------------------------------------------------ results
def unpack(repo, rep):
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        for n in f.walk():
            if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
                        if isinstance(n.value, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.value.elts) and len(n.value.elts) != len(t.elts):
                            rep.add("wrong-unpack", construct(f, unparse(t, 40)), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 80)}` takes {len(t.elts)} values, there are {len(n.value.elts)}")
                        elif isinstance(n.value, ast.Constant) and not isinstance(n.value.value, (str, bytes)):
                            rep.add("wrong-unpack", construct(f, unparse(t, 40)), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 80)}`: {n.value.value} cannot be unpacked")
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call)):
                continue
            if any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
                continue
            ts = [t for t, how in targets_of(repo, n.value, f)]
            if not ts or any(t.name == "__init__" for t in ts):
                continue
            k = len(n.targets[0].elts)
            rep.count("unpackings")
            for t in ts:
                if not plain(t):
                    continue
                rets = [r for r in t.walk() if isinstance(r, ast.Return)]
                if not rets or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in t.walk()):
                    continue
                why = flagged(n.value, t, dict(targets_of(repo, n.value, f)).get(t), k)
                if why:
                    rep.add("wrong-unpack", construct(f, t.qual), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 80)}` takes {k} values, {t.qual}, called like this, {why}")
                    continue
                ls = {len(r.value.elts) if isinstance(r.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.value.elts) else None for r in rets}
                if None not in ls and k not in ls:
                    rep.add("wrong-unpack", construct(f, t.qual), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 80)}` takes {k} values, {t.qual} returns {', '.join(map(str, sorted(ls)))}")


def vocabulary(repo):
    """(names of parameters, names under which values are stored)"""
    params, keys = set(), set()
    for f in repo.funcs.values():
        params |= set(f.args) | set(f.kwonly)
        if any((d or "").split(".")[-1] == "default_random_state" for d in (f.decorator_names() if not isinstance(f.node, ast.Lambda) else ())):
            params |= {"random_state", "seed"}
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                keys |= {k.arg for k in n.keywords if k.arg}
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("set", "setdefault", "pop", "new", "update", "append", "add") or isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    keys |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
            elif isinstance(n, ast.Dict):
                keys |= {k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
            elif isinstance(n, (ast.List, ast.Tuple, ast.Set)):
                keys |= {k.value for k in n.elts if isinstance(k, ast.Constant) and isinstance(k.value, str)}
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
                keys.add(n.slice.value)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                keys.add(n.attr)
            elif isinstance(n, ast.FunctionDef):
                keys.add(n.name)
            elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant):
                keys.add(n.left.value)
    return params, keys


def kin(ts, by_name):
    """the same method in classes that have a base in common with those of the targets"""
    bases = {b for t in ts if t.cls is not None for b in t.cls.mro if isinstance(b, Class)}
    return [g for nm in {t.name for t in ts} for g in by_name.get(nm, ()) if g.cls is not None and any(b in bases for b in g.cls.mro)]


def takes(repo, t, k, by_name):
    """whether the function, or one it passes its keywords on to, does anything with the keyword"""
    seen, todo = {t}, [t]
    while todo:
        t = todo.pop()
        if isinstance(t.node, ast.Lambda) or k in t.params or k in t.kwonly or not plain(t):
            return True
        if any((d or "").split(".")[-1] == "default_random_state" for d in t.decorator_names()) and k in ("random_state", "seed"):
            return True
        if not t.kwarg:
            continue
        on = handed_on(repo, t, by_name)
        if on is None:
            return True
        todo += [g for g in on if g not in seen]
        seen |= set(on)
    return False


def handed_on(repo, t, by_name):
    """the functions that get the keywords of this one; None if they are used in another way as well"""
    memo = repo.__dict__.setdefault("_handed_on", {})
    if t not in memo:
        memo[t] = _handed_on(repo, t, by_name)
    return memo[t]


def _handed_on(repo, t, by_name):
    uses = [n for n in ast.walk(t.node) if isinstance(n, ast.Name) and n.id == t.kwarg]
    passed, out = 0, []
    for n in ast.walk(t.node):
        if not isinstance(n, ast.Call) or not any(x.arg is None and isinstance(x.value, ast.Name) and x.value.id == t.kwarg for x in n.keywords):
            continue
        passed += 1
        ts = [g for g, _ in targets_of(repo, n, t)]
        if not ts:
            if isinstance(repo.resolve(n.func, t.module, t), Ext) or not isinstance(n.func, ast.Attribute):
                return None
            ts = by_name.get(n.func.attr)
            if not ts:
                return None
        elif isinstance(n.func, ast.Attribute) and n.func.attr != "__init__":
            ts = ts + kin(ts, by_name)        # an argument of the interface, which this implementation does not need
        out += ts
    return out if passed == len(uses) else None


def last(e):
    while isinstance(e, ast.Subscript):
        e = e.value
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


def keywords(repo, rep):
    params, keys = vocabulary(repo)
    ind = repo.cls("Individual", required=False)
    base = set(ind.methods) if ind is not None else set()
    solutions = {last(n.func.value) for m in repo.modules.values() for n in ast.walk(m.tree)
                 if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and any(isinstance(a, ast.Constant) and a.value in base for a in n.args)} - {None}
    known = library_names(repo) or set()
    methods = {}
    for f in repo.funcs.values():
        if f.is_method and not isinstance(f.node, ast.Lambda):
            methods.setdefault(f.name, []).append(f)
    memo = {}
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if any(x in f.module.name for x in (".visualization", ".vendor", ".plot", ".docs")):
            continue
        for n in f.walk():
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args and last(n.func.value) in solutions:
                for a in n.args:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        rep.count("keys_asked_for")
                        if a.value not in keys and a.value not in params:
                            rep.add("unknown-key", construct(f, a.value), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 60)}`: nothing stores a value under the name {a.value}")
            ks = [k.arg for k in n.keywords if k.arg]
            if not ks or isinstance(repo.resolve(n.func, f.module, f), Ext):
                continue
            ts = [t for t, _ in targets_of(repo, n, f)]
            if not ts and isinstance(n.func, ast.Attribute) and n.func.attr in methods and n.func.attr not in known and n.func.attr not in stored_names(repo):
                ts = methods[n.func.attr]
            if not ts or isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.attr in ("__init__",):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr != "__init__":
                ts = ts + kin(ts, methods)
            for k in ks:
                v = next(x.value for x in n.keywords if x.arg == k)
                if f.name == "__init__" and isinstance(v, ast.Name) and v.id == k and k in f.params + f.kwonly and len([x for x in f.walk() if isinstance(x, ast.Name) and x.id == k]) > 1:
                    continue                              # an option handed on as well as used
                rep.count("keywords_followed")
                for t in ts:
                    if (t, k) not in memo:
                        memo[t, k] = takes(repo, t, k, methods)
                if not any(memo[t, k] for t in ts) and all(t.kwarg for t in ts):
                    rep.add("unknown-keyword", construct(f, k), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 80)}`: nothing takes the argument {k}, it is lost in **{ts[0].kwarg}")


def flagged(call, t, how, k):
    """what the callee returns where its flags have the constant values of this call"""
    if any(isinstance(a, ast.Starred) for a in call.args) or isinstance(t.node, ast.Lambda):
        return None
    params = list(t.args) if how == "unbound" else list(t.params)
    dstar = any(x.arg is None for x in call.keywords)
    bound = dict(zip(params, call.args))
    bound.update({x.arg: x.value for x in call.keywords if x.arg})
    stored = {n.id for n in ast.walk(t.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    flags = {}
    for p in params + list(t.kwonly):
        v = bound.get(p, None if dstar else t.defaults.get(p))
        if p not in stored and isinstance(v, ast.Constant):
            flags[p] = v.value
    if not any(isinstance(v, bool) for v in flags.values()):
        return None

    def decide(e):
        if isinstance(e, ast.Name) and e.id in flags:
            return bool(flags[e.id])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = decide(e.operand)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [decide(x) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            return stop if stop in vs else None if None in vs else not stop
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id in flags and isinstance(e.comparators[0], ast.Constant) and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            same = flags[e.left.id] is e.comparators[0].value or flags[e.left.id] == e.comparators[0].value
            return same == isinstance(e.ops[0], (ast.Is, ast.Eq))
        return None

    rets = []

    def value(e, none):
        if isinstance(e, ast.IfExp):
            d = decide(e.test)
            for x, taken in ((e.body, True), (e.orelse, False)):
                if d is None or d is taken:
                    value(x, none | given(e.test, taken))
        elif e is not None and not (isinstance(e, ast.Name) and e.id in none):
            rets.append(e)                   # nothing was given, nothing is returned

    def given(c, taken):
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Is, ast.IsNot)) and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None \
                and isinstance(c.left, ast.Name) and isinstance(c.ops[0], ast.Is) == taken:
            return {c.left.id}
        return set()

    def block(body, none=frozenset()):
        """whether the end of the block is reached"""
        for st in body:
            if isinstance(st, ast.Return):
                value(st.value, none)
                return False
            if isinstance(st, (ast.Raise, ast.Continue, ast.Break)):
                return False
            if isinstance(st, ast.Assign):
                none = none - {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if isinstance(st, ast.If):
                d = decide(st.test)
                a = block(st.body, none | given(st.test, True)) if d is not False else False
                b = block(st.orelse, none | given(st.test, False)) if d is not True else False
                if not (a or b):
                    return False
                if not a:
                    none = none | given(st.test, False)
            elif isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
                for part in ("body", "orelse", "finalbody"):
                    r = block(getattr(st, part, []), none)
                    if part != "orelse" and not r and isinstance(st, ast.With):
                        return False
                for h in getattr(st, "handlers", []):
                    block(h.body)
        return True

    block(t.body)
    full = [r for r in rets if isinstance(r, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.elts)]
    if not full:
        return None
    inside = {x.id for r in full for x in r.elts if isinstance(x, ast.Name)}
    for r in rets:
        if r in full and len(r.elts) != k:
            return f"returns {len(r.elts)} on line {r.lineno}"
        if isinstance(r, ast.Name) and r.id in inside and r.id in t.params and not any(isinstance(b, ast.Tuple) for b in [bound.get(r.id)]):
            return f"returns {r.id} alone on line {r.lineno}"
    return None


def abstract(repo, rep):
    def open_methods(c):
        out = []
        for k in c.mro:
            if isinstance(k, Class):
                for nm, m in k.methods.items():
                    if any((d or "").split(".")[-1] == "abstractmethod" for d in m.decorator_names()) and c.lookup(nm) is m and stub_body(m):
                        out.append(m)
        return out
    cache = {}
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or in_main_guard(m, n):
                continue
            fn = enclosing_func(m, n)
            r = repo.resolve(n.func, m, fn)
            if not isinstance(r, Class):
                continue
            rep.count("instantiations")
            if r not in cache:
                cache[r] = open_methods(r)
            for a in cache[r]:
                if needed(repo, r, a):
                    rep.add("abstract-instance", f"{r.id} {a.name}", f"{m.rel}:{n.lineno}", f"`{unparse(n, 60)}`: {r.name} does not implement {a.name}, which {a.qual} requires")


def needed(repo, c, a):
    """some inherited method calls the abstract one and uses its result"""
    for k in c.mro:
        if isinstance(k, Class):
            for m in k.methods.values():
                if c.lookup(m.name) is not m:
                    continue
                for n in m.walk():
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == a.name and isinstance(n.func.value, ast.Name) and n.func.value.id == m.selfname:
                        st = statement_of(m.module, n)[0]
                        if not isinstance(st, ast.Expr):
                            return True
    return False


def stub_body(m):
    return all(isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in m.body)


# ------------------------------------------------------------------ numpy
STUBS = ["/opt/venv/lib/python3.%d/site-packages/numpy" % v for v in range(14, 8, -1)]


def numpy_names():
    base = next((p for p in STUBS if os.path.exists(p + "/__init__.pyi")), None)
    if base is None:
        return None
    out = {}
    for sub, path in (("", "/__init__.pyi"), ("linalg", "/linalg/__init__.pyi"), ("random", "/random/__init__.pyi")):
        if not os.path.exists(base + path):
            continue
        t = ast.parse(Path(base + path).read_text())
        s = set()
        stack = list(t.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                s.add(n.name)
            elif isinstance(n, ast.Assign):
                s |= {x for y in n.targets for x in target_names(y)}
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                s.add(n.target.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                s |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, (ast.If, ast.Try)):
                stack += n.body + n.orelse
            elif hasattr(ast, "TypeAlias") and isinstance(n, ast.TypeAlias):
                s.add(n.name.id)
        out[sub] = s
    return out


def standard(repo, rep):
    """names taken from modules of the standard library"""
    import importlib
    mods = {nm: importlib.import_module(nm) for nm in ("abc", "bisect", "collections", "contextlib", "copy", "enum", "functools", "heapq", "inspect", "itertools", "json", "math", "numbers", "operator", "os", "os.path", "pickle",
                                                       "random", "re", "shutil", "string", "sys", "tempfile", "time", "types", "typing", "warnings")}
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = repo.resolve(n, m, enclosing_func(m, n))
                head, _, nm = r.path.rpartition(".") if isinstance(r, Ext) else ("", "", "")
                if head in mods:
                    rep.count("library_names")
                    if not hasattr(mods[head], nm) and not guarded(m, n):
                        rep.add("external-name", f"{m.name} {head}.{nm}", f"{m.rel}:{n.lineno}", f"{head} has no {nm}")
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module in mods and not guarded(m, n):
                for a in n.names:
                    rep.count("library_names")
                    if a.name != "*" and not hasattr(mods[n.module], a.name):
                        rep.add("external-name", f"{m.name} {n.module}.{a.name}", f"{m.rel}:{n.lineno}", f"{n.module} has no {a.name}")


def external(repo, rep):
    standard(repo, rep)
    table = numpy_names()
    if table is None or len(table.get("", ())) < 300:
        rep.notes.append("stubs of numpy not found: names taken from numpy not checked")
        rep.counts["numpy_names"] = 10 ** 6
        return
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                fn = enclosing_func(m, n)
                r = repo.resolve(n, m, fn)
                if isinstance(r, Ext) and r.path.startswith("numpy."):
                    parts = r.path.split(".")[1:]
                    rep.count("numpy_names")
                    if len(parts) == 1 and parts[0] not in table[""] and not parts[0].startswith("__"):
                        rep.add("external-name", f"{m.name} numpy.{parts[0]}", f"{m.rel}:{n.lineno}", f"numpy (installed version) has no {parts[0]}")
                    elif len(parts) == 2 and parts[0] in table and parts[0] and parts[1] not in table[parts[0]]:
                        rep.add("external-name", f"{m.name} numpy.{'.'.join(parts)}", f"{m.rel}:{n.lineno}", f"numpy.{parts[0]} (installed version) has no {parts[1]}")


def signatures():
    """keywords the functions of numpy accept (union over their overloads); functions with **kwargs left out"""
    base = next((p for p in STUBS if os.path.exists(p + "/__init__.pyi")), None)
    out, open_ = {}, set()
    for sub, prefix in (("_core", ""), ("lib", ""), ("linalg", "linalg.")):
        d = Path(base or "/nonexistent") / sub
        for p in sorted(d.glob("*.pyi")):
            try:
                t = ast.parse(p.read_text())
            except SyntaxError:
                continue
            for n in t.body:
                if isinstance(n, ast.FunctionDef):
                    a = n.args
                    out.setdefault(prefix + n.name, set()).update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
                    if a.kwarg is not None:
                        open_.add(prefix + n.name)
                elif isinstance(n, (ast.AnnAssign, ast.Assign)):
                    open_ |= {prefix + x for t_ in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in target_names(t_)}
    return {k: v for k, v in out.items() if k not in open_}


def falls(body):
    if not body:
        return True
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return False
    if isinstance(s, ast.If):
        return falls(s.body) or falls(s.orelse)
    if isinstance(s, ast.With):
        return falls(s.body)
    if isinstance(s, ast.Try):
        if s.finalbody and not falls(s.finalbody):
            return False
        return falls(s.orelse or s.body) or any(falls(h.body) for h in s.handlers)
    return True


def ends(body):
    """the statements after which a body ends without returning; a missing else, the end of a loop and pass are deliberate"""
    if not body:
        return []
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.For, ast.While, ast.Pass, ast.Continue, ast.Break, ast.Match, ast.Assert)):
        return []
    if isinstance(s, ast.If):
        return ends(s.body) + ends(s.orelse)
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return ends(s.body)
    if isinstance(s, ast.Try):
        if s.finalbody and not falls(s.finalbody):
            return []
        return ends(s.orelse or s.body) + [x for h in s.handlers for x in ends(h.body)]
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").split(".")[-1] in ("exit", "_exit", "abort"):
        return []
    return [s]


def results(repo, rep):
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if isinstance(f.node, ast.Lambda):
            continue
        rets = [n for n in f.walk() if isinstance(n, ast.Return)]
        val = [r for r in rets if r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None)]
        if val and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in f.walk()):
            rep.count("value_functions")
            for st in ends(f.body):
                rep.add("missing-return", construct(f, "end"), f"{f.module.rel}:{st.lineno} {f.qual}", f"returns nothing after `{unparse(st, 60)}`, but a value elsewhere (line {val[0].lineno})")
        for n in f.walk():
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                nm = n.value.func.id
                if nm in BUILTINS and nm.endswith(("Error", "Exception")) and nm not in repo.local_names(f):
                    rep.add("unraised-error", construct(f, nm), f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 60)}` is not raised")


LIBRARIES = {"numpy", "numpy.linalg", "numpy.random"}


def library_names(repo):
    """attributes of the types numpy, the builtins and the standard library provide"""
    import builtins
    import types
    known = set()
    for nm in dir(builtins):
        o = getattr(builtins, nm)
        if isinstance(o, type):
            known |= set(dir(o))
    for o in (types.FunctionType, types.ModuleType, types.GeneratorType, types.CodeType, types.FrameType, types.MethodType, types.TracebackType):
        known |= set(dir(o))
    base = next((p for p in STUBS if os.path.exists(p + "/__init__.pyi")), None)
    if base is None:
        return None
    for sub in ("__init__.pyi", "random/_generator.pyi", "random/mtrand.pyi", "random/bit_generator.pyi", "linalg/_linalg.pyi"):
        p = Path(base) / sub
        if p.exists():
            for n in ast.walk(ast.parse(p.read_text())):
                if isinstance(n, ast.FunctionDef):
                    known.add(n.name)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    known.add(n.target.id)
    return known


def attributes(repo, rep):
    known = library_names(repo)
    if known is None:
        rep.counts["attribute_reads"] = rep.counts["numpy_keywords"] = 10 ** 6
        return
    defined, methods = set(), {}
    for m in repo.modules.values():
        defined |= set(m.globals)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                defined.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                defined.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                defined |= {n.value} if n.value.isidentifier() else set()
            elif isinstance(n, ast.keyword) and n.arg:
                defined.add(n.arg)
            if isinstance(n, ast.ClassDef):
                for st in n.body:
                    if isinstance(st, (ast.Assign, ast.AnnAssign)):
                        for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                            defined |= set(target_names(t))
    for f in repo.funcs.values():
        if f.is_method and not isinstance(f.node, ast.Lambda):
            methods.setdefault(f.name, set()).add(f)
    sigs = signatures()
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        pure = all((r.split(".")[0] in ("numpy", "pymoo", "__future__") or std(r)) for r in imported(repo, m)) and not foreign(repo, m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                fn = enclosing_func(m, n)
                f = fn
                r = repo.resolve(n.func, m, f)
                if isinstance(r, Ext) and r.path.startswith("numpy."):
                    k = r.path[len("numpy."):]
                    if k in sigs:
                        for kw in n.keywords:
                            if kw.arg:
                                rep.count("numpy_keywords")
                                if kw.arg not in sigs[k]:
                                    rep.add("external-name", f"{m.name} numpy.{k} {kw.arg}", f"{m.rel}:{n.lineno}", f"`{unparse(n, 80)}`: numpy.{k} has no argument {kw.arg}")
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)) or not pure:
                continue
            fn = enclosing_func(m, n)
            f = fn
            if isinstance(n.value, ast.Name) and f is not None and n.value.id == repo.self_name(f):
                continue                                  # the class family is known: missing-member
            r = repo.resolve(n, m, f)
            root = repo.resolve(n.value, m, f)
            if isinstance(r, Ext) or isinstance(root, (Ext, ModRef)):
                continue
            rep.count("attribute_reads")
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super":
                continue
            if n.attr not in known and n.attr not in defined:
                if f is not None and probed(f, n, n.attr):
                    continue
                rep.add("unknown-attribute", f"{m.name} {unparse(n)}", f"{m.rel}:{n.lineno}" + (f" {f.qual}" if f is not None else ""), f"`{unparse(n, 80)}`: nothing has an attribute {n.attr}")
            par = parents(m).get(id(n))
            if isinstance(par, ast.Call) and par.func is n and n.attr in methods and n.attr not in known and n.attr not in stored_names(repo):
                ts = methods[n.attr]
                if f is not None and targets_of(repo, par, f):
                    continue                              # judged against its own target
                rep.count("calls_by_name")
                bad = [mismatch(par, t, None) for t in ts if plain(t)]
                if len(bad) == len(ts) and all(bad):
                    rep.add("wrong-arguments", f"{m.name}:{f.qual if f is not None else ''} {n.attr}", f"{m.rel}:{n.lineno}", f"`{unparse(par, 80)}` fits no method {n.attr} of the package: {bad[0]}")


def foreign(repo, m):
    """the module works with objects of a plotting library or of a parallel back-end that are handed to it"""
    return m.name.startswith(("pymoo.visualization", "pymoo.parallelization", "pymoo.vendor")) or m.name == "pymoo.core.plot" or any(r.startswith("pymoo.visualization") or r in ("pymoo.core.plot", "pymoo.vendor") for r in imported(repo, m)) or any(
        isinstance(n, ast.Name) and n.id in ("plt", "ax", "fig", "client", "pool") for n in ast.walk(m.tree))


def stored_names(repo):
    if getattr(repo, "_stored_names", None) is None:
        repo._stored_names = {n.attr for m in repo.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return repo._stored_names


def imported(repo, m):
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            out |= {a.name for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            out.add(repo._abs(m, n) or "?")
    return out


def std(nm):
    """standard library modules whose objects do not escape under names of their own"""
    return nm.split(".")[0] in ("abc", "copy", "math", "itertools", "functools", "typing", "collections", "warnings", "os", "sys", "time", "random", "enum", "operator", "contextlib", "numbers", "bisect", "heapq",
                                "string", "types", "inspect", "logging", "importlib", "pickle", "dataclasses", "tempfile", "shutil", "json", "re")


SELFTESTS = [
    ("clean", {"pymoo/a.py": """
    import numpy as np
    from abc import abstractmethod
    from pymoo.b import Base, helper
    class A(Base):
        def __init__(self, k=1, **kwargs):
            super().__init__(**kwargs)
            self.k = k
        def _do(self, X, *args, **kwargs):
            if self.k > 1:
                w = np.sum(X, axis=1)
            else:
                w = None
            if self.k > 1:
                return helper(w, scale=2)
            return helper(X)
        @property
        def size(self):
            return self.k
        def go(self, X):
            a, b = self.pair(X)
            for i in range(3):
                r = a + i
            return r + b + self.size + other(A(k=2))
        def pair(self, X):
            return X, self.do(X, 1)
    def other(o):
        global late
        late = 1
        return o.k + late
    """, "pymoo/b.py": """
    from abc import abstractmethod
    class Base:
        def do(self, X, n, **kwargs):
            y = self._do(X, n, **kwargs)
            return y
        @abstractmethod
        def _do(self, X, n, **kwargs):
            pass
    def helper(x, scale=1):
        return x * scale
    """}, []),
    ("dirty", {"pymoo/a.py": """
    import numpy as np
    from pymoo.b import Base, helper, missing
    class A(Base):
        def __init__(self, k=1, **kwargs):
            super().__init__(**kwargs)
            self.k = k
            if k > 3:
                self.extra = 1
        def _do(self, X, **kwargs):
            X = X + self.extra
            if self.k > 1:
                w = np.sum(X, axes=1)
            if self.k < 5:
                return helper(w, size=2)
            else:
                self.k = nowhere
        @property
        def size(self):
            return self.j
        def go(self, X):
            a, b, c = self.pair(X)
            ValueError("no")
            np.summ(X)
            X.individualz
            super()._nothing()
            X.helpful(1, 2)
            return self.size() + Base()
        def pair(self, X):
            return X, self.do(X, 1)
        def helpful(self, x):
            pass
    """, "pymoo/b.py": """
    from abc import abstractmethod
    class Base:
        def do(self, X, n, **kwargs):
            y = self._do(X, n, **kwargs)
            return y
        @abstractmethod
        def _do(self, X, n, **kwargs):
            pass
    def helper(x, scale=1):
        return x * scale
    """}, [("missing-import", "pymoo.a pymoo.b.missing"), ("external-name", "pymoo.a numpy.sum axes"), ("external-name", "pymoo.a numpy.summ"), ("unbound-local", "pymoo.a:A._do w"), ("wrong-arguments", "pymoo.a:A._do helper"),
           ("undefined-name", "pymoo.a _do nowhere"), ("missing-member", "pymoo.a:A j"), ("wrong-unpack", "pymoo.a:A.go A.pair"), ("unraised-error", "pymoo.a:A.go ValueError"), ("unknown-attribute", "pymoo.a X.individualz"),
           ("missing-member", "pymoo.a:A super _nothing"), ("wrong-arguments", "pymoo.a:A.go helpful"), ("not-callable", "pymoo.a:A.go size"), ("abstract-instance", "pymoo.b:Base _do"), ("missing-return", "pymoo.a:A._do end"),
           ("wrong-arguments", "pymoo.b:Base.do A._do"), ("unset-attribute", "pymoo.a:A extra")]),
    ("arguments through the bases", {"pymoo/b.py": """
    class Base:
        def __init__(self, n, prob=1.0, **kwargs):
            self.n, self.prob, self.kw = n, prob, kwargs
        def do(self, pop, n, parents=None, seed=None):
            return pop, n, parents, seed
    class Strict:
        def __init__(self, size=1):
            self.size = size
    class Good(Base):
        def __init__(self, **kwargs):
            super().__init__(n=2, **kwargs)
        def run(self, pop, seed=None, first=1, other=2):
            a = self.do(pop, 1, seed=seed)
            return "%s %.3f%%" % (a, 1.0) + "{} {x}".format(1, x=2)
    class Bad(Base):
        def __init__(self, **kwargs):
            super().__init__(points=2, **kwargs)
        def run(self, pop, seed=None):
            a = self.do(pop, 1, seed)
            return "%s %s" % (a,) + "{} {}".format(1)
    class Worse(Strict):
        def __init__(self, a=1, **kwargs):
            super().__init__(**kwargs)
    def build():
        return Worse(length=3), Worse(size=3)
    """}, [("misplaced-argument", "pymoo.b:Bad.run Base.do"), ("wrong-format", "pymoo.b:Bad.run 2 places, 1 values"), ("wrong-format", "pymoo.b:Bad.run 2 places, 1 values"),
           ("wrong-arguments", "pymoo.b:Bad through its bases"), ("wrong-arguments", "pymoo.b:build Worse through its bases"), ("unknown-keyword", "pymoo.b:build length")]),
    ("returns by flag", {"pymoo/b.py": """
    class D:
        def do(self, pop, indices=False):
            if len(pop) == 0:
                return pop
            a, b = [], []
            if indices:
                return pop, a, b
            else:
                return pop
        def good(self, pop, indices=False):
            if pop is None:
                return pop
            if len(pop) == 0:
                return (pop, [], []) if indices else pop
            a, b = [], []
            if not indices:
                return pop
            return pop, a, b
    def use(pop):
        _, a, b = D().do(pop, indices=True)
        _, c, d = D().good(pop, indices=True)
        return a, b, c, d
    """}, [("wrong-unpack", "pymoo.b:use D.do")]),
    ("what an object of ours has", {"pymoo/b.py": """
    class Tool:
        def __init__(self):
            self.k = 1
        def do(self, x):
            return x + self.k
    class Other:
        def __init__(self):
            self.k = 1
        def make(self, x):
            return x
    class User:
        def __init__(self, flag=False, tool=None):
            self.tool = Tool() if flag else Other()
            self.given = tool
            self.both = tool if tool is not None else Tool()
        def go(self, x):
            if hasattr(self.both, "make"):
                x = self.both.make(x)
            t = Tool()
            return self.tool.do(x) + self.given.do(x) + t.do(x) + t.k
        def other(self, x):
            t = Tool()
            return t.make(x) + self.tool.k + self.both.do(x)
    """, "pymoo/i.py": """
    class Individual:
        def __init__(self):
            self.data = {}
        def F(self):
            return self.data["F"]
        def set(self, k, v):
            self.data[k] = v
        def get(self, *keys):
            return [self.data[k] for k in keys]
    def rank(pop):
        for p in pop:
            p.set("rank", 1)
        a, b = 1, 2
        x, y = 1, 2, 3
        return pop.get("F"), pop.get("rank"), pop.get("rnak")
    """}, [("unknown-attribute", "pymoo.b:User.go self.tool.do"), ("unknown-attribute", "pymoo.b:User.other t.make"), ("unknown-key", "pymoo.i:rank rnak"), ("wrong-unpack", "pymoo.i:rank (x, y)")]),
]
