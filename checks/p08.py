"""P08 - runs are isolated from each other."""
import ast
from sa.model import *
from sa.effects import Effects
from sa.util import *
from sa.paths import Walker
from sa.symb import Ctx

EXPLANATION = (
    "Escape and statefulness analysis. Everything two independently created objects can share is enumerated: objects created by default arguments (once per function, not per call), "
    "containers and instances bound in class bodies, module-level variables, function attributes and closures of decorators. For each, the methods that can be called on it "
    "(and on the components it creates) are searched for stores and in-place updates; a shared object that keeps state is reported unless the state is detached by a copy "
    "before use, or is a value computed once without any input. For the functional interface the copies of algorithm and termination must precede their use on every path."
)
ASSUMPTIONS = ["objects the user shares explicitly (a callback, a problem, a display) are outside the property", "third-party classes keep no state between calls"]
COPIES = {"copy.deepcopy", "copy.copy"}
CONTAINER = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
# component classes whose state is overwritten from the arguments at the start of every use (EvolutionaryParameterControl: tell, then do, then get)
REFRESHED = {("pymoo.operators.control:ParameterControl", "data"), ("pymoo.operators.control:EvolutionaryParameterControl", "data"),
             ("pymoo.core.parameters", "value")}


def run(repo, rep):
    rep.rule("default-shared", "an object created by a default argument keeps state, so all objects built with the default share it")
    rep.rule("class-shared", "a mutable object bound in a class body is modified through instances")
    rep.rule("module-shared", "a module-level variable, class attribute or function attribute is modified by a function")
    rep.rule("not-copied", "the functional interface modifies the algorithm or termination object it was given")
    rep.rule("copy-shares", "the copy of an object still refers to parts of the original")
    eff = Effects(repo)
    direct = {}
    for (f, spec), L in eff.direct.items():
        direct.setdefault(f, []).extend(L)
    defaults(repo, eff, rep, direct)
    class_level(repo, eff, rep, direct)
    module_level(repo, eff, rep, direct)
    functional(repo, rep)
    memoised(repo, rep)
    copies(repo, rep)
    singletons(repo, rep, direct)
    handed_out(repo, eff, rep, direct)
    if not getattr(repo, "mini", False):
        for k, m in [("default_objects", 60), ("functions_examined", 1200), ("functional_paths", 1)]:
            rep.floor(k, m)


# ------------------------------------------------------------------ default arguments
def default_args(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return [(p.arg, d) for p, d in out]


def state_of(repo, c, direct, depth=0, seen=None):
    """(method, attribute path, node) a method of c (not its constructor) stores or updates in place; components included"""
    seen = set() if seen is None else seen
    if c in seen:
        return
    seen.add(c)
    for k in c.mro:
        if not isinstance(k, Class):
            continue
        for m in k.methods.values():
            if m.name in ("__init__", "__new__", "__setstate__", "__getstate__", "__deepcopy__", "__copy__", "__setattr__") or c.lookup(m.name) is not m:
                continue
            if any(d.split(".")[-1] == "setter" for d in m.decorator_names()):
                continue
            if plain_setter(repo, m):
                continue            # counts where it is called
            for roots, what, node, val, via in direct.get(m, ()):
                for r, p in roots:
                    if r == ("p", repo.self_name(m)):
                        attr = p[0] if p else what.split(":")[-1]
                        if isinstance(node, ast.Subscript) and not really_self(repo, m, node, attr):
                            continue
                        yield m, attr, node
    if depth < 2:
        ini = c.lookup("__init__")
        for k in c.mro:
            if not isinstance(k, Class) or "__init__" not in k.methods:
                continue
            g = k.methods["__init__"]
            for n in g.walk():
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == repo.self_name(g) for t in n.targets):
                    for x in ctor_of(repo, n.value, g):
                        for m, attr, node in state_of(repo, x, direct, depth + 1, seen):
                            yield m, attr, node


def plain_setter(repo, m):
    """a method that does nothing but store its argument"""
    body = [st for st in m.body if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) and not (isinstance(st, ast.Return) and st.value is None)]
    ps = [p for p in m.all_params if p != repo.self_name(m)]
    return bool(ps) and all(isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and st.value.id in ps and all(
        isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == repo.self_name(m) for t in st.targets) for st in body)


def ctor_of(repo, e, g, depth=0):
    out = set()
    if isinstance(e, ast.Call):
        r = repo.resolve(e.func, g.module, g)
        if isinstance(r, Class):
            out.add(r)
        elif isinstance(e.func, ast.Name) and e.func.id in dict(default_args(g)):
            d = repo.resolve(dict(default_args(g))[e.func.id], g.module, None)
            if isinstance(d, Class):
                out.add(d)
    elif isinstance(e, ast.Name) and depth < 3:
        for v in repo.local_assigns(g).get(e.id) or []:
            if isinstance(v, ast.expr):
                out |= ctor_of(repo, v, g, depth + 1)
        d = dict(default_args(g)).get(e.id)
        if isinstance(d, ast.Call):
            out |= ctor_of(repo, d, g, depth + 1)
    elif isinstance(e, (ast.List, ast.Tuple)):
        for x in e.elts:
            out |= ctor_of(repo, x, g, depth + 1)
    elif isinstance(e, ast.IfExp):
        out = ctor_of(repo, e.body, g, depth + 1) | ctor_of(repo, e.orelse, g, depth + 1)
    return out


def really_self(repo, m, node, attr):
    """x[...] = v where x reaches self.<attr> through a parameter object's value (a Variable's `get`): the stored value belongs to the variable"""
    t = node.value
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        if isinstance(t, ast.Attribute) and t.attr == attr:
            return True
        t = t.value
    if not isinstance(t, ast.Name):
        return True
    for v in repo.local_assigns(m).get(t.id) or []:
        if isinstance(v, ast.expr) and any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(v)):
            return not (isinstance(v, ast.Call) and isinstance(repo.resolve(v.func, m.module, m), Func))
        if isinstance(v, tuple) or not isinstance(v, ast.expr):
            continue
    return t.id == repo.self_name(m)


def detached(repo, f, p):
    """the parameter (or the attribute of that name) is replaced by a copy before it is used"""
    scopes = [f]
    al = repo.cls("pymoo.core.algorithm:Algorithm")
    if f.cls is not None and al in f.cls.mro and "setup" in al.methods:
        scopes.append(al.methods["setup"])
        seen = set(scopes)
        for g in list(scopes):
            for n in g.walk():
                if isinstance(n, ast.Call):
                    for t in repo.resolve_call(n, g, fallback=False):
                        if isinstance(t, Func) and t.cls is al and t not in seen:
                            seen.add(t)
                            scopes.append(t)
    for g in scopes:
        for n in g.walk():
            if isinstance(n, ast.Assign) and any((isinstance(t, ast.Attribute) and t.attr == p) or (isinstance(t, ast.Name) and t.id == p) for t in n.targets):
                for c in ast.walk(n.value):
                    if isinstance(c, ast.Call) and isinstance(repo.resolve(c.func, g.module, g), Ext) and repo.resolve(c.func, g.module, g).path in COPIES and c.args and (
                            (isinstance(c.args[0], ast.Attribute) and c.args[0].attr == p) or (isinstance(c.args[0], ast.Name) and c.args[0].id == p)):
                        return True
    return False


def defaults(repo, eff, rep, direct):
    cache = {}
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if in_main_guard(f.module, f.node):
            continue
        for p, d in default_args(f):
            where = f"{f.module.rel}:{d.lineno} {f.qual}"
            if isinstance(d, CONTAINER):
                rep.count("default_containers")
                hit = container_changed(repo, eff, f, p, direct)
                if hit:
                    rep.add("default-shared", f"{f.id} {p}", where, f"the default `{p}={unparse(d)}` is one object for all calls and is modified: {hit}")
            elif isinstance(d, ast.Call):
                c = repo.resolve(d.func, f.module, None)
                if not isinstance(c, Class):
                    continue
                rep.count("default_objects")
                if c not in cache:
                    cache[c] = [(m, a, n) for m, a, n in state_of(repo, c, direct) if not refreshed(m, a)]
                if cache[c]:
                    if detached(repo, f, p):
                        rep.count("stateful_defaults_detached")
                        continue
                    m, a, n = cache[c][0]
                    rep.add("default-shared", f"{f.id} {p}", where,
                            f"the default `{p}={unparse(d, 50)}` is one object for all calls and keeps state: {m.qual} writes {a} at {m.module.rel}:{getattr(n, 'lineno', '?')}")


def refreshed(m, a):
    c = m.cls
    return any(isinstance(k, Class) and (k.id, a) in REFRESHED for k in (c.mro if c is not None else ()))


def container_changed(repo, eff, f, p, direct):
    for roots, what, node, val, via in direct.get(f, ()):
        if any(r == ("p", p) for r, _ in roots) and what != "rebind":
            return f"`{unparse(node, 60)}` line {getattr(node, 'lineno', '?')}"
    c = repo.enclosing_class(f)
    if c is None:
        return None
    # stored on the instance and updated there
    attrs = set()
    for (g, spec), L in eff.stores.items():
        if g is f:
            for b, attr, v, node in L:
                if (("p", p), ()) in v.own and (("p", repo.self_name(f)), ()) in b.own:
                    attrs.add(attr)
    for g, L in direct.items() if attrs else ():
        for roots, what, node, val, via in L:
            if what == "item" and any(len(q) > 1 and q[-1] in attrs for _, q in roots):
                return f"{g.qual} `{unparse(node, 60)}` line {getattr(node, 'lineno', '?')}"
    for k in sorted(c.family(), key=lambda k: k.id) + [x for x in c.mro if isinstance(x, Class)]:
        for m in k.methods.values():
            for roots, what, node, val, via in direct.get(m, ()):
                for r, q in roots:
                    if r == ("p", repo.self_name(m)) and q and q[0] in attrs:
                        return f"{m.qual} `{unparse(node, 60)}` line {getattr(node, 'lineno', '?')}"
    return None


# ------------------------------------------------------------------ class bodies
def class_values(repo, c):
    for st in c.node.body:
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    yield t.id, st.value
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            yield st.target.id, st.value


def instance_bound(repo, c, attr):
    """every instance gets its own value in the constructor"""
    for k in c.mro:
        if isinstance(k, Class) and "__init__" in k.methods:
            g = k.methods["__init__"]
            for n in g.walk():
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == repo.self_name(g) for t in ts):
                        return True
    return False


def class_level(repo, eff, rep, direct):
    for c in sorted(repo.classes.values(), key=lambda c: c.id):
        vals = dict(class_values(repo, c))
        for attr, v in vals.items():
            if isinstance(v, ast.Constant):
                continue
            mutable = isinstance(v, CONTAINER)
            comp = None
            if isinstance(v, ast.Call):
                r = repo.resolve(v.func, c.module, None)
                if isinstance(r, Class):
                    comp = r
                elif isinstance(r, Ext) and r.path in ("builtins.list", "builtins.dict", "builtins.set", "collections.defaultdict", "collections.deque", "collections.OrderedDict",
                                                       "collections.Counter", "numpy.zeros", "numpy.array", "numpy.ones", "numpy.empty", "numpy.random.default_rng"):
                    mutable = True
            if not mutable and comp is None:
                continue
            rep.count("class_level_values")
            if comp is None and empty(v) and not instance_bound(repo, c, attr) and not attr.isupper() and read_anywhere(repo, attr):
                rep.add("class-shared", f"{c.id} {attr}", f"{c.module.rel}:{v.lineno} {c.name}",
                        f"`{attr} = {unparse(v)}` in the class body is the container all instances of {c.name} collect in")
                continue
            if comp is not None:
                st = [(m, a, n) for m, a, n in state_of(repo, comp, direct) if not refreshed(m, a)]
                if st and used(repo, c, attr):
                    rep.add("class-shared", f"{c.id} {attr}", f"{c.module.rel}:{v.lineno} {c.name}",
                            f"`{attr} = {unparse(v, 50)}` is one object for all instances and keeps state ({st[0][0].qual} writes {st[0][1]})")
                continue
            for k in sorted(set(c.family()), key=lambda k: k.id):
                for m in k.methods.values():
                    for roots, what, node, val, via in direct.get(m, ()):
                        for r, q in roots:
                            if r == ("p", repo.self_name(m) or (m.params[0] if m.params else None)) and q and q[0] == attr and not instance_bound(repo, k, attr):
                                rep.add("class-shared", f"{c.id} {attr}", f"{m.module.rel}:{getattr(node, 'lineno', '?')} {m.qual}",
                                        f"`{unparse(node, 60)}` modifies {attr}, which is one object for all instances of {c.name}")


def empty(v):
    if isinstance(v, (ast.List, ast.Set)):
        return not v.elts
    if isinstance(v, ast.Dict):
        return not v.keys
    return isinstance(v, ast.Call) and not v.args and not v.keywords or (
        isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in ("defaultdict", "deque"))


def read_anywhere(repo, attr):
    rd = repo.__dict__.get("_attrs_read")
    if rd is None:
        rd = repo._attrs_read = {n.attr for m in repo.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
    return attr in rd


def used(repo, c, attr):
    for k in c.family():
        for m in k.methods.values():
            for n in m.walk():
                if isinstance(n, ast.Attribute) and n.attr == attr:
                    return True
    return False


# ------------------------------------------------------------------ modules
def module_level(repo, eff, rep, direct):
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if in_main_guard(f.module, f.node):
            continue
        rep.count("functions_examined")
        for roots, what, node, val, via in direct.get(f, ()):
            g = sorted(r[0][1] for r in roots if r[0][0] == "g")
            if g:
                rep.count("module_writes")
                st = statement_of(f.module, node)[0] if isinstance(node, ast.AST) else None
                if once(repo, f, st, g[0].split(".")[-1]):
                    rep.count("write_once")
                    continue
                if switch(repo, f, st):
                    rep.count("process_switches")       # its users are the subject of P17
                    continue
                rep.add("module-shared", f"{f.id} {g[0]}", f"{f.module.rel}:{getattr(node, 'lineno', f.lineno)} {f.qual}",
                        f"`{unparse(node, 60)}` modifies {g[0]}, which is shared by everything in the process")
        for n in f.walk():
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                while isinstance(t, ast.Subscript):
                    t = t.value
                if not isinstance(t, ast.Attribute):
                    continue
                o = owner_of(repo, f, t.value)
                if o is None:
                    continue
                rep.count("module_writes")
                if once(repo, f, n, t.attr):
                    rep.count("write_once")
                    continue
                rep.add("module-shared", f"{f.id} {o}.{t.attr}", f"{f.module.rel}:{n.lineno} {f.qual}",
                        f"`{unparse(n, 60)}` modifies {o}.{t.attr}, which is shared by everything in the process")
        # attributes of a function
        for n in f.walk():
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and not (n.attr.startswith("__") and n.attr != "__dict__"):
                if n.value.id == f.name and f.cls is None and n.value.id not in repo.local_names(f) or n.attr == "__dict__" and owner_of(repo, f, n.value):
                    if n.attr == "__dict__" and reads_only(f.module, n):
                        continue
                    rep.add("module-shared", f"{f.id} {n.value.id}.{n.attr}", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n)}` keeps something on the function or class itself, which is shared by everything in the process")
            elif isinstance(n, ast.Call):
                r = repo.resolve(n.func, f.module, f)
                if isinstance(r, Ext) and r.path in ("builtins.setattr", "builtins.delattr") and n.args:
                    o = owner_of(repo, f, n.args[0])
                    if o is not None:
                        rep.add("module-shared", f"{f.id} {o} setattr", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 60)}` modifies {o}, which is shared by everything in the process")
                elif isinstance(r, Ext) and r.path == "builtins.globals" and not reads_only(f.module, n):
                    rep.add("module-shared", f"{f.id} globals", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n)}` is used to keep something in the module, which is shared by everything in the process")
        # closures: a nested function that changes a variable of a decorator or factory applied at import time
        if f.parent is not None and isinstance(f.parent, Func) and decorates(repo, f.parent):
            for n in f.walk():
                if isinstance(n, ast.Nonlocal):
                    rep.add("module-shared", f"{f.id} nonlocal", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n)}`: the decorated function keeps {', '.join(n.names)} from one call to the next")
            fresh = {k for k, vs in repo.local_assigns(f.parent).items() if any(isinstance(v, CONTAINER) or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set")) for v in vs)}
            mine = set(repo.local_assigns(f)) | set(f.all_params)
            for n in f.walk():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in mine:
                    how = next((h for h in (stateful(repo, v, f.parent, direct) for v in repo.local_assigns(f.parent).get(n.id) or []) if h), None)
                    if how:
                        rep.add("module-shared", f"{f.id} {n.id}", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{n.id}` is created once, when the function is decorated, and keeps state from one call to the next ({how})")
            for n in f.walk():
                nm = None
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            nm = t.value.id
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                        "append", "update", "setdefault", "add", "extend", "pop", "clear", "insert"):
                    nm = n.func.value.id
                if nm in fresh and nm not in mine:
                    rep.add("module-shared", f"{f.id} {nm}", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n, 60)}` modifies {nm}, which lives as long as the decorated function")


def switch(repo, f, st):
    """`global x; x = <parameter>` in a public module-level function that returns nothing: the user's explicit switch"""
    if f.parent is not None or f.cls is not None or f.name.startswith("_") or not isinstance(st, ast.Assign):
        return False
    if any(isinstance(n, ast.Return) and n.value is not None for n in f.walk()):
        return False
    if not (isinstance(st.value, ast.Name) and st.value.id in f.all_params and all(isinstance(t, ast.Name) for t in st.targets)):
        return False
    # nothing but checks of the argument besides
    return all(isinstance(b, (ast.Global, ast.If, ast.Expr, ast.Assert)) or b is st for b in f.body)


def reads_only(mod, n):
    """a dictionary that is only looked up or copied"""
    p = parents(mod).get(id(n))
    if p is None:
        return True
    if isinstance(p, ast.Subscript):
        return isinstance(p.ctx, ast.Load)
    if isinstance(p, ast.Attribute):
        return p.attr in ("get", "items", "keys", "values", "copy")
    return isinstance(p, (ast.Call, ast.Compare, ast.Starred, ast.For, ast.comprehension, ast.keyword, ast.Dict, ast.Return))


RNGS = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random"}


def stateful(repo, v, f, direct):
    """the call creates an object that keeps state"""
    if not isinstance(v, ast.Call):
        return None
    r = repo.resolve(v.func, f.module if isinstance(f, Func) else f, f if isinstance(f, Func) else None)
    if isinstance(r, Ext) and r.path in RNGS:
        return "a random number generator"
    if isinstance(r, Class):
        st = [(m, a) for m, a, n in state_of(repo, r, direct) if not refreshed(m, a)]
        if st:
            return f"{st[0][0].qual} writes {st[0][1]}"
    return None


def singletons(repo, rep, direct):
    """objects created once at module level that keep state and are used by functions"""
    for m in sorted(repo.modules.values(), key=lambda m: m.name):
        made = {}
        for st in m.tree.body:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) and st.value is not None else []
            for t in ts:
                if isinstance(t, ast.Name):
                    h = stateful(repo, st.value, m, direct)
                    if h:
                        made[t.id] = (st, h)
        if not made:
            continue
        rep.count("module_objects", len(made))
        for f in repo.funcs.values():
            if in_main_guard(f.module, f.node):
                continue
            hit = set()
            for n in f.walk():
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                    nm = n.id if isinstance(n, ast.Name) else n.attr
                    if nm not in made or nm in hit:
                        continue
                    same = f.module is m and isinstance(n, ast.Name) and nm not in repo.local_names(f)
                    if same or f.module is not m and imported_from(repo, f, n, m):
                        hit.add(nm)
                        rep.add("module-shared", f"{f.id} {m.name}.{nm}", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(made[nm][0], 60)}` is one object for the whole process and keeps state ({made[nm][1]})")
            for p, d in default_args(f):
                if isinstance(d, ast.Name) and d.id in made and f.module is m:
                    rep.add("default-shared", f"{f.id} {p}", f"{f.module.rel}:{d.lineno} {f.qual}",
                            f"the default `{p}={d.id}` is one object for the whole process and keeps state ({made[d.id][1]})")


def handed_out(repo, eff, rep, direct):
    """a container of the module that becomes an attribute of objects which change it"""
    for (f, spec), L in sorted(eff.stores.items(), key=lambda t: (t[0][0].id, str(t[0][1]))):
        for b, attr, v, node in L:
            g = sorted({r[1] for r, p in v.own if r[0] == "g" and not p})
            if not g:
                continue
            rep.count("module_values_handed_out")
            for h, M in direct.items():
                hit = next((n for roots, what, n, val, via in M if what == "item" and any(
                    q and q[-1] == attr and same_holder(repo, f, h, r, q, attr) for r, q in roots)), None)
                if hit is not None:
                    rep.add("module-shared", f"{f.id} {g[0]} {attr}", f"{f.module.rel}:{getattr(node, 'lineno', f.lineno)} {f.qual}",
                            f"{g[0]} becomes the {attr} of objects, and `{unparse(hit, 50)}` ({h.qual}) changes it for all of them")
                    break


def same_holder(repo, f, h, r, q, attr):
    """can the attribute that h changes be the one that f has set"""
    if f.cls is None:
        return False
    fam = set(f.cls.family()) | {k for k in f.cls.mro if isinstance(k, Class)}
    if len(q) == 1 and r == ("p", repo.self_name(h)):
        return h.cls in fam
    owners = repo.__dict__.setdefault("_owners", {})
    if attr not in owners:
        owners[attr] = {g.cls for g in repo.funcs.values() if g.cls is not None for n in g.walk() if isinstance(n, ast.Attribute) and n.attr == attr
                        and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == repo.self_name(g)}
    return owners[attr] <= fam


def imported_from(repo, f, n, m):
    if isinstance(n, ast.Attribute):
        r = repo.resolve(n.value, f.module, f)
        return isinstance(r, ModRef) and r.name == m.name
    if n.id in repo.local_names(f):
        return False
    for st in ast.walk(f.module.tree):
        if isinstance(st, ast.ImportFrom) and st.module == m.name and any((a.asname or a.name) == n.id for a in st.names):
            return True
    return False


def copies(repo, rep):
    for c in sorted(repo.classes.values(), key=lambda c: c.id):
        for st in c.node.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__deepcopy__" for t in st.targets) and not (
                    isinstance(st.value, ast.Constant) and st.value.value is None):
                rep.add("copy-shares", f"{c.id} __deepcopy__", f"{c.module.rel}:{st.lineno} {c.name}", f"`{unparse(st, 60)}`: copies of a {c.name} are not its own")
        m = c.methods.get("__deepcopy__")
        if m is None:
            continue
        rep.count("copy_methods")
        sn, ps = repo.self_name(m), m.params
        memo = ps[0] if ps else None
        bad = None
        cp = [n for n in m.walk() if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("deepcopy", "__deepcopy__", "loads", "reconstruct", "_reconstruct")]
        deep = lambda e: any(x in cp for x in ast.walk(e))
        for n in m.walk():
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == sn:
                bad = bad or (n, "hands out the object itself")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == memo and not deep(n.value) and any(
                            isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sn for x in ast.walk(n.value)):
                        bad = bad or (n, "keeps a part of the original out of the copy")
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id != sn and not deep(n.value) and isinstance(n.value, ast.Attribute) \
                            and isinstance(n.value.value, ast.Name) and n.value.value.id == sn and n.value.attr != "__class__":
                        bad = bad or (n, "hands a part of the original on to the copy")
        if bad is None and not cp:
            bad = (m.node, "copies nothing but the object itself")
        if bad is not None:
            rep.add("copy-shares", f"{c.id} __deepcopy__", f"{c.module.rel}:{bad[0].lineno} {m.qual}",
                    f"{m.qual} {bad[1]}: what one run does to a copy reaches the other objects")


def simple_value(repo, f):
    """everything the function returns is a number, a text or a truth value"""
    rs = [n.value for n in f.walk() if isinstance(n, ast.Return) and n.value is not None]
    def ok(e):
        if isinstance(e, (ast.Constant, ast.Compare, ast.JoinedStr)):
            return True
        if isinstance(e, ast.Call):
            return (dotted(e.func) or "").split(".")[-1] in ("len", "int", "float", "str", "bool", "sum", "round", "comb", "binom", "factorial", "isinstance",
                                                             "is_file", "exists", "join", "format", "hasattr", "any", "all", "abs", "find_spec")
        if isinstance(e, ast.BinOp):
            return ok(e.left) and ok(e.right)
        if isinstance(e, (ast.BoolOp,)):
            return all(ok(v) for v in e.values)
        if isinstance(e, ast.UnaryOp):
            return ok(e.operand)
        if isinstance(e, ast.IfExp):
            return ok(e.body) and ok(e.orelse)
        if isinstance(e, ast.Name):
            r = repo.resolve(e, f.module, f)
            if isinstance(r, (Func, Class, ModRef)):
                return True
            vs = [v for v in repo.local_assigns(f).get(e.id) or [] if isinstance(v, ast.expr)]
            ann = next((a.annotation for a in f.node.args.args if a.arg == e.id), None)
            return bool(vs) and all(ok(v) for v in vs) or isinstance(ann, ast.Name) and ann.id in ("int", "float", "str", "bool")
        return False
    return all(ok(e) for e in rs)


MEMO = {"functools.lru_cache", "functools.cache", "functools.cached_property"}


def memoised(repo, rep):
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        for d in getattr(f.node, "decorator_list", ()):
            e = d.func if isinstance(d, ast.Call) else d
            r = repo.resolve(e, f.module, None)
            if isinstance(r, Ext) and r.path in MEMO - {"functools.cached_property"}:
                rep.count("memoised_functions")
                if f.cls is not None and not f.is_static or any(p == "random_state" for p in f.all_params) or not simple_value(repo, f):
                    rep.add("module-shared", f"{f.id} {r.path}", f"{f.module.rel}:{f.lineno} {f.qual}",
                            f"the results of {f.qual} are kept for the whole process by {r.path}, although they depend on an object or generator that changes, or can be changed by whoever gets them")


def decorates(repo, g):
    """g is applied as a decorator somewhere (or returns a function that is)"""
    while isinstance(g, Func):
        for h in repo.funcs.values():
            for d in getattr(h.node, "decorator_list", ()):
                e = d.func if isinstance(d, ast.Call) else d
                if isinstance(e, (ast.Name, ast.Attribute)) and (e.id if isinstance(e, ast.Name) else e.attr) == g.name:
                    return True
        g = g.parent
    return False


def owner_of(repo, f, e):
    """name of the class, module or function whose attribute is written"""
    if isinstance(e, ast.Name):
        if e.id in repo.local_names(f) and e.id not in ("cls",):
            return None
        if e.id == "cls" and f.is_classmethod and f.cls is not None:
            return f.cls.id
        r = repo.resolve(e, f.module, f)
        if isinstance(r, Class):
            return r.id
        if isinstance(r, Func):
            return r.id
        if isinstance(r, ModRef):
            return r.name
        return None
    if isinstance(e, ast.Attribute):
        if e.attr == "__class__":
            return "class of " + unparse(e.value)
        r = repo.resolve(e, f.module, f)
        if isinstance(r, (Class, Func)):
            return r.id
        if isinstance(r, ModRef):
            return r.name
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
        return "class of " + unparse(e.args[0])
    return None


def once(repo, f, st, name):
    """`if X is None: X = value` where the value depends on no parameter: computed once, the same for everyone"""
    if st is None or f.parent is not None:
        return False
    guards = [a for a in ancestors(f.module, st) if isinstance(a, ast.If) and any(
        isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.Is, ast.Eq)) and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None and
        (c.left.attr if isinstance(c.left, ast.Attribute) else c.left.id if isinstance(c.left, ast.Name) else "").endswith(name.lstrip("_")) for c in ast.walk(a.test))]
    if not guards and not (f.name == "__init__" and len(f.all_params) == 1):
        return False
    ps = set(f.all_params)
    if f.cls is not None and not f.is_static and f.params:
        ps -= {f.params[0]}
    return not any(isinstance(n, ast.Name) and n.id in ps for n in ast.walk(st))


# ------------------------------------------------------------------ functional interface
class Given(Walker):
    """which of the caller's objects a name stands for, on every path, with the copying switches on"""
    READS = {"builtins.isinstance", "builtins.hasattr", "builtins.getattr", "builtins.type", "copy.deepcopy", "builtins.repr", "builtins.str", "builtins.callable"}

    def __init__(self, repo, f, rep):
        super().__init__(repo)
        self.rep, self.f, self.bad, self.depth = rep, f, {}, 0

    def value(self, e, env, f):
        """what an expression stands for: a set of the caller's objects, or True for a switch that is on"""
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset())
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, env, f)
            r = frozenset()
            if t is not False:
                r |= self.objs(e.body, env, f)
            if t is not True:
                r |= self.objs(e.orelse, env, f)
            return r
        if isinstance(e, ast.BoolOp):
            r = frozenset()
            for v in e.values:
                r |= self.objs(v, env, f)
            return r
        if isinstance(e, (ast.Tuple, ast.List)):
            r = frozenset()
            for v in e.elts:
                r |= self.objs(v, env, f)
            return r
        if isinstance(e, ast.NamedExpr):
            return self.value(e.value, env, f)
        if isinstance(e, ast.Call):
            r = self.repo.resolve(e.func, f.module, f)
            if isinstance(r, Func) and self.depth < 3:
                m, *_ = bind_args(e, r)
                sub = {k: self.value(v, env, f) for k, v in m.items() if isinstance(v, ast.expr)}
                return self.call(r, sub)
        return frozenset()

    def objs(self, e, env, f):
        v = self.value(e, env, f)
        return v if isinstance(v, frozenset) else frozenset()

    def truth(self, t, env, f):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.truth(t.operand, env, f)
            return None if v is None else not v
        if isinstance(t, ast.Name) and env.get(t.id) is True:
            return True
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(v, env, f) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        return None

    def call(self, t, env):
        self.depth += 1
        ret = frozenset()
        sub = Given(self.repo, t, self.rep)
        sub.depth, sub.bad = self.depth, self.bad
        sub.returned = set()
        sub.block(t.body, Ctx(self.repo, t), {tuple(sorted(env.items()))})
        for r in sub.returned:
            ret |= r
        self.depth -= 1
        return ret

    returned = None

    def branch(self, test, ctx, s, taken):
        f = ctx.f
        env = dict(s)
        t = self.truth(test, env, f)
        if t is not None and t != taken:
            return None
        if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if taken == isinstance(test.ops[0], ast.Is):
                env[test.left.id] = frozenset()
        return tuple(sorted(env.items()))

    def inline(self, call, ctx):
        return None

    def event(self, node, ctx, s):
        f = ctx.f
        env = dict(s)
        if isinstance(node, ast.Assign):
            v = self.value(node.value, env, f)
            for t in node.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = v
                elif isinstance(t, (ast.Tuple, ast.List)):
                    vs = [self.value(x, env, f) for x in node.value.elts] if isinstance(node.value, (ast.Tuple, ast.List)) and len(node.value.elts) == len(t.elts) else [v] * len(t.elts)
                    for x, y in zip(t.elts, vs):
                        if isinstance(x, ast.Name):
                            env[x.id] = y
                else:
                    b = t
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    self.note(self.objs(b, env, f), node, f)
                    self.note(v if isinstance(v, frozenset) else frozenset(), node, f)
        elif isinstance(node, ast.Return):
            v = self.objs(node.value, env, f) if node.value is not None else frozenset()
            if self.returned is not None:
                self.returned.add(v)
            else:
                self.note(v, node, f)
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute):
                self.note(self.objs(node.func.value, env, f), node, f)
            r = self.repo.resolve(node.func, f.module, f)
            if isinstance(r, Ext) and r.path in self.READS or isinstance(r, Func) and self.depth < 3:
                return tuple(sorted(env.items()))
            for a in list(node.args) + [k.value for k in node.keywords]:
                self.note(self.objs(a.value if isinstance(a, ast.Starred) else a, env, f), node, f)
        return tuple(sorted(env.items()))

    def note(self, objs, node, f):
        for o in objs:
            self.bad.setdefault(o, (node, f))


def functional(repo, rep):
    f = repo.func("pymoo.optimize:minimize", required=not getattr(repo, "mini", False))
    if f is None:
        return
    w = Given(repo, f, rep)
    env = {p: (True if p.startswith("copy_") else frozenset({p}) if p in ("algorithm", "termination") else frozenset()) for p in f.all_params}
    for p in ("algorithm", "termination"):
        if p not in f.all_params or "copy_" + p not in f.all_params:
            raise AnchorMissing(f"{f.id} parameter {p} / copy_{p}")
    w.run(f, Ctx(repo, f), {tuple(sorted(env.items()))})
    rep.count("functional_paths")
    for o, (node, g) in sorted(w.bad.items()):
        rep.add("not-copied", f"{f.id} {o}", f"{g.module.rel}:{node.lineno} {g.qual}",
                f"`{unparse(node, 70)}` uses the {o} object of the caller without a copy although copy_{o} is set")


SELFTESTS = [
    ("clean", {"pymoo/core/algorithm.py": """
    import copy
    class Algorithm:
        def __init__(self, output=None):
            self.output = output
            self.problem = None
        def setup(self, problem):
            if self.output is not None:
                self.output = copy.deepcopy(self.output)
        def run(self):
            return 1
    """, "pymoo/optimize.py": """
    import copy
    def minimize(problem, algorithm, termination=None, copy_algorithm=True, copy_termination=True, **kwargs):
        if copy_algorithm:
            algorithm = copy.deepcopy(algorithm)
        if termination is not None and copy_termination:
            termination = copy.deepcopy(termination)
        algorithm.setup(problem, termination=termination)
        return algorithm.run()
    """, "pymoo/a.py": """
    from pymoo.core.algorithm import Algorithm
    class Out:
        def __init__(self):
            self.rows = []
        def update(self):
            self.rows.append(1)
    class Op:
        names = ["a"]
        def do(self, x):
            return [n for n in self.names]
    class A(Algorithm):
        def __init__(self, output=Out(), op=Op(), opts={}):
            super().__init__(output=output)
            self.opts = dict(opts)
        def setup2(self):
            self.opts["a"] = 1
    class Single:
        instance = None
        def get():
            if Single.instance is None:
                Single.instance = Single()
            return Single.instance
    """}, []),
    ("dirty", {"pymoo/core/algorithm.py": """
    class Algorithm:
        def __init__(self, output=None):
            self.output = output
        def setup(self, problem):
            pass
        def run(self):
            return 1
    """, "pymoo/optimize.py": """
    import copy
    def minimize(problem, algorithm, termination=None, copy_algorithm=True, copy_termination=True, **kwargs):
        if copy_algorithm and termination is None:
            algorithm = copy.deepcopy(algorithm)
        algorithm.setup(problem)
        return algorithm.run()
    """, "pymoo/a.py": """
    from pymoo.core.algorithm import Algorithm
    CACHE = {}
    class Out:
        def __init__(self):
            self.rows = []
        def update(self):
            self.rows.append(1)
    class Op:
        seen = []
        def do(self, x):
            self.seen.append(x)
            CACHE[x] = 1
    class A(Algorithm):
        def __init__(self, output=Out(), opts={}):
            super().__init__(output=output)
            self.opts = opts
        def go(self, v):
            self.opts["a"] = 1
            A.last = v
    """}, [("default-shared", "pymoo.a:A.__init__ output"), ("default-shared", "pymoo.a:A.__init__ opts"), ("class-shared", "pymoo.a:Op seen"),
           ("module-shared", "pymoo.a:Op.do pymoo.a.CACHE"), ("module-shared", "pymoo.a:A.go pymoo.a:A.last"), ("not-copied", "pymoo.optimize:minimize algorithm")]),
    ("kept", {"pymoo/a.py": '''
    import copy
    import functools
    import numpy as np

    class Counter:
        def __init__(self):
            self.n = 0
        def count(self):
            self.n += 1

    class Table:
        def rows(self):
            return []

    ONE = Counter()
    TABLE = Table()

    def use():
        return TABLE.rows()

    def count():
        ONE.count()

    class Log:
        data = {}

    def read(log):
        return log.data

    class Short:
        def __deepcopy__(self, memo):
            return self

    class Deep:
        def __deepcopy__(self, memo):
            new = self.__class__.__new__(self.__class__)
            for k, v in self.__dict__.items():
                setattr(new, k, copy.deepcopy(v, memo))
            return new

    def deco(func):
        rng = np.random.default_rng(1)
        def wrapper(*args):
            return func(*args, random_state=rng)
        return wrapper

    def deco2(func):
        def wrapper(*args):
            rng = np.random.default_rng(1)
            return func(*args, random_state=rng)
        return wrapper

    def deco3(func):
        def wrapper(*args):
            kept = wrapper.__dict__.setdefault("kept", {})
            return kept
        return wrapper

    @deco
    def f(random_state):
        return 1

    @deco2
    def g(random_state):
        return 1

    @deco3
    def h():
        return 1

    @functools.lru_cache
    def grid(n):
        return np.linspace(0, 1, n)

    @functools.lru_cache
    def size(n):
        return int(n * 2)

    class E:
        def __init__(self, values=["a"]):
            self.values_of = values

    class Alg:
        def more(self):
            self.evaluator.values_of.append("b")
    '''}, [("module-shared", "pymoo.a:count pymoo.a.ONE"), ("class-shared", "pymoo.a:Log data"), ("copy-shares", "pymoo.a:Short __deepcopy__"),
           ("module-shared", "pymoo.a:deco.<locals>.wrapper rng"), ("module-shared", "pymoo.a:deco3.<locals>.wrapper wrapper.__dict__"),
           ("module-shared", "pymoo.a:grid functools.lru_cache"), ("default-shared", "pymoo.a:E.__init__ values")]),
]
