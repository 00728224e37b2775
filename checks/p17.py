"""P17 - temporary changes are undone even when something fails."""
import ast
from sa.model import *
from sa.util import *
from sa.paths import Walker
from sa.symb import Ctx, canon, enter, single

EXPLANATION = (
    "Every function of the package is searched for temporary changes of things that outlive it: an attribute that is saved, overwritten and written back (or detached by a constant and kept in a local only), "
    "a shared container filled by the same helper with a temporary and then with the resting content, and package switches (module variables with a setter and a call that resets them). For each one, all paths "
    "from the change are followed - through helpers, loops, handlers and finally blocks, every call possibly raising - and every exit, normal or exceptional, must have passed the restoration. In addition no function "
    "assigns a constant to an option of a component that was handed to it."
)
ASSUMPTIONS = ["only calls, raise statements, assertions and yields raise; len, isinstance, range and similar builtins do not", "a component is owned by the class whose constructor creates or copies it"]
QUIET = {"len", "isinstance", "range", "list", "dict", "set", "tuple", "enumerate", "zip", "hasattr", "id", "type", "bool", "str", "repr", "callable", "super"}


def run(repo, rep):
    rep.rule("not-restored", "a temporary change is not undone on a path that ends normally")
    rep.rule("not-restored-on-failure", "a temporary change is not undone when something raises")
    rep.rule("option-overwritten", "an option of a component handed in is set to a constant and stays that way")
    sw = switches(repo)
    rep.count("switches", len(sw))
    resting = contents(repo)
    rep.count("shared_contents", len(resting))
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if isinstance(f.node, ast.Lambda):
            continue
        rep.count("functions_searched")
        episodes(repo, rep, f, sw, resting)
        options(repo, rep, f)
    if not getattr(repo, "mini", False):
        for k, m in [("functions_searched", 1000), ("episodes", 2), ("switches", 1), ("foreign_attribute_writes", 3)]:
            rep.floor(k, m)


def pairs(n):
    """(target, value) of an assignment, tuples taken apart"""
    if isinstance(n, ast.Assign):
        ts, v = n.targets, n.value
    elif isinstance(n, ast.AnnAssign) and n.value is not None:
        ts, v = [n.target], n.value
    else:
        return
    for t in ts:
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [v] * len(t.elts)
            for i, (a, b) in enumerate(zip(t.elts, vs)):
                yield a, b, (i if b is v else None)
        else:
            yield t, v, None


def value_text(v, i, ctx):
    """canonical text of the (i-th element of the) value"""
    if i is None:
        return canon(v, ctx)
    w, c = v, ctx
    for _ in range(4):
        if isinstance(w, ast.Name):
            if c.up is not None and w.id in c.args:
                w, c = c.args[w.id], c.up
                continue
            s = single(c, w.id)
            if s is not None:
                w = s
                continue
        break
    if isinstance(w, (ast.Tuple, ast.List)) and i < len(w.elts):
        return canon(w.elts[i], c)
    return canon(v, ctx) + f"[{i}]"


# ------------------------------------------------------------------ attributes
def saved_attributes(repo, f, ctx):
    """attribute paths that are written back from what was read from them, and paths that are detached for good

    key -> "saved" (there is a restoration) or "detached" (kept in a local that is never used, overwritten by a constant)"""
    out = {}
    reads = {}
    for n in f.walk():
        for t, v, i in pairs(n):
            if isinstance(t, ast.Attribute) and isinstance(v, ast.Name):
                k = canon(t, ctx)
                if value_text(v, i, ctx) == k:
                    out[k] = "saved"
            if isinstance(t, ast.Name) and isinstance(v, ast.Attribute):
                reads.setdefault(canon(v, ctx), []).append((t.id, n.lineno))
    for n in f.walk():
        for t, v, i in pairs(n):
            if isinstance(t, ast.Attribute) and isinstance(v, ast.Constant):
                k = canon(t, ctx)
                for nm, line in reads.get(k, ()):
                    used = any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for g in [f] + nested(repo, f) for x in g.walk())
                    if line < n.lineno and not used and k not in out:
                        out[k] = "detached"
    # what is detached in one go with something that is put back afterwards
    for run in detached_together(f, ctx):
        own = {k for k in run if out.get(k) == "saved"}
        if own:
            for k in run:
                if k not in out and any(k.rsplit(".", 1)[0] == x.rsplit(".", 1)[0] for x in own):
                    out[k] = "together"
    return out


def detached_together(f, ctx):
    """groups of attributes that consecutive statements set to None"""
    def nones(st):
        ps = list(pairs(st)) if isinstance(st, (ast.Assign, ast.AnnAssign)) else []
        if ps and all(isinstance(t, ast.Attribute) and isinstance(v, ast.Constant) and v.value is None for t, v, i in ps):
            return [canon(t, ctx) for t, v, i in ps]
        return None
    for n in [f.node] + list(f.walk()):
        for fld in ("body", "orelse", "finalbody"):
            block = getattr(n, fld, None)
            if not isinstance(block, list):
                continue
            run = []
            for st in block:
                ks = nones(st)
                if ks is None:
                    if len(run) > 1:
                        yield run
                    run = []
                else:
                    run += ks
            if len(run) > 1:
                yield run


def nested(repo, f):
    return [g for g in repo.funcs.values() if g.parent is f]


# ------------------------------------------------------------------ switches
def switches(repo):
    """module variable -> (setters, resetters): functions that assign it with `global`; the resetting ones give it its initial value"""
    out = {}
    for m in repo.modules.values():
        first = {}
        for st in m.tree.body:
            for t, v, i in pairs(st):
                if isinstance(t, ast.Name) and isinstance(v, ast.Constant):
                    first.setdefault(t.id, v.value)
        for f in repo.funcs.values():
            if f.module is not m or isinstance(f.node, ast.Lambda):
                continue
            for n in f.walk():
                if isinstance(n, ast.Global):
                    for g in n.names:
                        if g not in first:
                            continue
                        for x in f.walk():
                            for t, v, i in pairs(x):
                                if isinstance(t, ast.Name) and t.id == g:
                                    s = out.setdefault((m.name, g), {"first": first[g], "set": {}, "reset": set()})
                                    if isinstance(v, ast.Constant):
                                        if v.value == first[g]:
                                            s["reset"].add(f)
                                        else:
                                            s["set"][f] = None
                                    elif isinstance(v, ast.Name) and v.id in f.params:
                                        s["set"][f] = v.id
                                    else:
                                        s["set"][f] = None
    for s in out.values():
        for f in repo.funcs.values():                   # forwarders: def deactivate(): activate("numpy")
            if f in s["set"] or isinstance(f.node, ast.Lambda):
                continue
            cs = [n for n in f.walk() if isinstance(n, ast.Call)]
            body = [x for x in f.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if len(cs) == 1 and len(body) == 1 and isinstance(body[0], (ast.Expr, ast.Return)):
                ts = repo.resolve_call(cs[0], f, fallback=False)
                if len(ts) == 1 and ts[0] in s["set"] and resets(s, cs[0], ts[0]):
                    s["reset"].add(f)
    return {k: s for k, s in out.items() if s["set"] and (s["reset"] or any(p for p in s["set"].values()))}


def resets(s, call, t):
    p = s["set"].get(t)
    if p is None:
        return False
    m, *_ = bind_args(call, t)
    v = m.get(p)
    return isinstance(v, ast.Constant) and v.value == s["first"]


# ------------------------------------------------------------------ contents
def refills(repo, f):
    """(helper, destination text, source text, call) of calls that empty a container and fill it from another"""
    for n in f.walk():
        if isinstance(n, ast.Call):
            r = repo.resolve(n.func, f.module, f)
            if not isinstance(r, Func) or isinstance(r.node, ast.Lambda) or r.is_method or len(r.params) != 2 or len(n.args) != 2 or n.keywords:
                continue
            d = emptied(r)
            if d is not None:
                i = r.params.index(d)
                ctx = Ctx(repo, f, cls=f.cls)
                yield r, canon(n.args[i], ctx), canon(n.args[1 - i], ctx), n


def emptied(t):
    for n in t.walk():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and isinstance(n.func.value, ast.Name) and n.func.value.id in t.params:
            return n.func.value.id
    return None


def contents(repo):
    """(class, destination) -> source it rests at: the one most methods end with, if it differs from what others start with"""
    last, seen = {}, {}
    for f in repo.funcs.values():
        if f.cls is None or isinstance(f.node, ast.Lambda):
            continue
        cs = {}
        for r, d, s, n in refills(repo, f):
            cs.setdefault(d, []).append((n.lineno, s))
            seen.setdefault((f.cls, d), set()).add(s)
        for d, xs in cs.items():
            last.setdefault((f.cls, d), []).append(max(xs)[1])
    out = {}
    for k, xs in last.items():
        if len(seen[k]) > 1:
            out[k] = max(sorted(set(xs)), key=xs.count)
    return out


# ------------------------------------------------------------------ paths
class Undo(Walker):
    implicit_exc = True
    loops_once = False

    def __init__(self, repo, keys, sw, resting, f):
        super().__init__(repo)
        self.keys, self.sw, self.resting, self.f = keys, sw, resting, f
        self.where = {}
        self.opened = set()

    def inline(self, call, ctx):
        if ctx.depth() > 2:
            return None
        ts = self.repo.resolve_call(call, ctx.f, fallback=False)
        if ctx.cls is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == self.repo.self_name(ctx.f):
            t = ctx.cls.lookup(call.func.attr)
            ts = [t] if t is not None else ts
        if len(ts) != 1 or not isinstance(ts[0], Func) or isinstance(ts[0].node, ast.Lambda) or ts[0] is ctx.f:
            return None
        t = ts[0]
        attrs = {k.split(".")[-1] for k in self.keys}
        if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in attrs for n in t.walk()) or any(True for _ in refills(self.repo, t) if t.cls is self.f.cls and t.cls is not None):
            return enter(ctx, call, t)
        if not any(t in s["set"] or t in s["reset"] for s in self.sw.values()) and t.module is ctx.f.module and self.touches(t):
            return enter(ctx, call, t)
        return None

    def touches(self, t):
        return any(isinstance(n, ast.Call) and any(x in s["set"] or x in s["reset"] for x in self.repo.resolve_call(n, t, fallback=False) for s in self.sw.values()) for n in t.walk())

    def open(self, k, n, s):
        self.where.setdefault(k, n)
        self.opened.add(k)
        return frozenset(s | {k})

    def event(self, n, ctx, s):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t, v, i in pairs(n):
                if isinstance(t, ast.Attribute):
                    k = canon(t, ctx)
                    if k in self.keys:
                        if value_text(v, i, ctx) == k:
                            s = frozenset(s - {k})
                        else:
                            s = self.open(k, n, s)
        elif isinstance(n, ast.Call):
            for t in self.repo.resolve_call(n, ctx.f, fallback=False):
                for g, sw in self.sw.items():
                    if t in sw["reset"] or (t in sw["set"] and resets(sw, n, t)):
                        s = frozenset(s - {g})
                    elif t in sw["set"]:
                        s = self.open(g, n, s)
            if ctx.f.cls is not None:
                for r, d, src, c in refills(self.repo, ctx.f):
                    if c is n and (self.f.cls, d) in self.resting:
                        s = frozenset(s - {d}) if src == self.resting[self.f.cls, d] else self.open(d, n, s)
        return s

    def expr(self, e, ctx, states, o):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in QUIET:
            self.implicit_exc = False
            try:
                return super().expr(e, ctx, states, o)
            finally:
                self.implicit_exc = True
        if isinstance(e, ast.Call) and self.inline(e, ctx) is None:
            # the arguments, then the call: restorations do not fail half way, and what fails leaves the state before it
            cur = set(states)
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    cur = self.expr(ch, ctx, cur, o)
                elif isinstance(ch, ast.keyword):
                    cur = self.expr(ch.value, ctx, cur, o)
            after = self.each(e, ctx, cur)
            undo = {s for s in cur if self.event(e, ctx, s) < s}
            o.exc |= cur - undo
            return after
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            cur = super().expr(e, ctx, states, o)
            o.exc |= cur
            return cur
        return super().expr(e, ctx, states, o)


def episodes(repo, rep, f, sw, resting):
    ctx = Ctx(repo, f, cls=f.cls)
    keys = saved_attributes(repo, f, ctx)
    calls = [n for n in f.walk() if isinstance(n, ast.Call)]
    uses_switch = any(t in s["set"] and not resets(s, n, t) for n in calls for t in repo.resolve_call(n, f, fallback=False) for s in sw.values())
    own = {d for r, d, s, n in refills(repo, f) if f.cls is not None and (f.cls, d) in resting}
    if any(f in s["set"] or f in s["reset"] for s in sw.values()):
        uses_switch = False
    if not keys and not uses_switch and not own:
        return
    w = Undo(repo, set(keys), sw if uses_switch else {}, resting, f)
    try:
        o = w.block(f.body, ctx, {frozenset()})
    except RuntimeError:
        rep.count("functions_with_too_many_paths")
        return
    normal, exc = o.fall | o.ret, o.exc
    for k in sorted(w.opened, key=str):
        kept = [s for s in normal if k in s]
        rep.count("episodes")
        text = k if isinstance(k, str) else ".".join(k)
        if f.name == "__enter__" and f.cls is not None and "__exit__" in f.cls.methods:
            continue
        n = w.where[k]
        const = isinstance(n, ast.Call) or any(isinstance(v, ast.Constant) for t, v, i in pairs(n))
        if kept and not const:
            continue                        # the new value is meant to stay on some path
        if kept:
            rep.add("not-restored", f"{f.id} {text}", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 80)}` is not undone on every path")
        if any(k in s for s in exc):
            rep.add("not-restored-on-failure", f"{f.id} {text}", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 80)}` stays when something fails afterwards")


# ------------------------------------------------------------------ options
def constructor_options(repo):
    if getattr(repo, "_ctor_options", None) is None:
        d = {}
        for c in repo.classes.values():
            f = c.methods.get("__init__")
            if f is not None:
                for p in f.params + f.kwonly:
                    d.setdefault(p, set()).add(c)
        repo._ctor_options = d
    return repo._ctor_options


def options(repo, rep, f):
    ctx = Ctx(repo, f, cls=f.cls)
    body = [x for x in f.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    setter = len(body) == 1 and isinstance(body[0], (ast.Assign, ast.For)) and not any(isinstance(n, ast.Call) for n in ast.walk(body[0]))
    for n in f.walk():
        for t, v, i in pairs(n):
            if not isinstance(t, ast.Attribute) or not isinstance(v, ast.Constant):
                continue
            if canon(t.value, ctx) == "self" or isinstance(t.value, ast.Name) and t.value.id == repo.self_name(f):
                continue
            rep.count("foreign_attribute_writes")
            ks = constructor_options(repo).get(t.attr)
            if not ks or setter or owned(repo, f, t.value):
                continue
            if not any(t.attr in stores(repo, k) for k in ks):
                continue
            if saved_attributes(repo, f, ctx).get(canon(t, ctx)) == "saved":
                continue                    # a temporary change
            rep.add("option-overwritten", f"{f.id} {t.attr}", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 60)}` changes an option of {unparse(t.value)}, which was handed in")


def stores(repo, k):
    return {n.attr for x in k.mro if isinstance(x, Class) for m in x.methods.values() for n in m.walk() if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}


def fresh(repo, v, f, depth=0):
    if isinstance(v, ast.Call):
        r = repo.resolve(v.func, f.module, f)
        if isinstance(r, Class):
            return True
        nm = (dotted(v.func) or "").split(".")[-1]
        if nm in ("deepcopy", "copy", "new", "create"):
            return True
        if isinstance(r, Func):
            rs = [n for n in r.walk() if isinstance(n, ast.Return) and n.value is not None]
            return depth < 3 and bool(rs) and all(fresh(repo, x.value, r, depth + 1) for x in rs)
        return not isinstance(r, Func) and isinstance(v.func, ast.Name) and r is None
    if isinstance(v, ast.IfExp):
        return fresh(repo, v.body, f, depth) and fresh(repo, v.orelse, f, depth)
    if isinstance(v, ast.Name) and depth < 4:
        vs = repo.local_assigns(f).get(v.id, [])
        return bool(vs) and any(x is not None and fresh(repo, x, f, depth + 1) for x in vs)
    return False


def owned(repo, f, e):
    if isinstance(e, ast.Name):
        vs = repo.local_assigns(f).get(e.id, [])
        if any(x is not None and fresh(repo, x, f) for x in vs):
            return True
        return bool(vs) and all(isinstance(x, ast.Attribute) and owned(repo, f, x) for x in vs)
    c = repo.enclosing_class(f)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == repo.self_name(f) and c is not None:
        return any(v is not None and g is not None and fresh(repo, v, g) for v_ in [repo.attr_assigns(c).get(e.attr, [])] for g, v in v_)
    if isinstance(e, ast.Attribute):
        return owned(repo, f, e.value)
    return isinstance(e, ast.Call)


SWITCH = """
    active = "numpy"
    def activate(name):
        global active
        active = name
    def deactivate():
        activate("numpy")
"""
SELFTESTS = [
    ("clean", {"pymoo/g.py": SWITCH, "pymoo/a.py": """
    import copy
    from pymoo.g import activate, deactivate
    def refill(src, dest):
        dest.clear()
        dest.update(src)
    class A:
        def __init__(self, ev):
            self.ev = copy.copy(ev)
            self.ev.quiet = True
        def snap(self):
            h, c = self.h, self.c
            self.h, self.c = None, None
            try:
                return copy.deepcopy(self)
            finally:
                self.h, self.c = h, c
        def step(self):
            old = self.w
            self.w = self.adapt(old)
            if self.worse():
                self.w = old
        def one(self):
            refill(self.a, self.c)
            try:
                self.go()
            finally:
                refill(self.b, self.c)
        def two(self):
            refill(self.a, self.c)
            try:
                return self.go()
            finally:
                refill(self.b, self.c)
    def diff(f, name):
        activate(name)
        try:
            return f()
        finally:
            deactivate()
    class Evaluator:
        def __init__(self, quiet=False):
            self.quiet = quiet
    """}, []),
    ("dirty", {"pymoo/g.py": SWITCH, "pymoo/a.py": """
    import copy
    from pymoo.g import activate, deactivate
    def refill(src, dest):
        dest.clear()
        dest.update(src)
    class A:
        def snap(self):
            h, c = self.h, self.c
            self.h, self.c = None, None
            obj = copy.deepcopy(self)
            self.h = h
            return obj
        def snap2(self):
            h = self.h
            self.h, self.o = None, None
            try:
                return copy.deepcopy(self)
            finally:
                self.h = h
        def one(self):
            refill(self.a, self.c)
            try:
                self.go()
            finally:
                refill(self.b, self.c)
        def two(self):
            refill(self.a, self.c)
            r = self.go()
            refill(self.b, self.c)
            return r
        def three(self):
            refill(self.a, self.c)
            return self.go()
    def diff(f, name):
        activate(name)
        try:
            r = f()
        except ValueError:
            deactivate()
            raise
        deactivate()
        return r
    class Evaluator:
        def __init__(self, quiet=False):
            self.quiet = quiet
    def use(evaluator, x):
        evaluator.quiet = True
        return evaluator.eval(x)
    """}, [("not-restored-on-failure", "pymoo.a:A.snap self.h"), ("not-restored-on-failure", "pymoo.a:A.snap self.c"), ("not-restored", "pymoo.a:A.snap self.c"), ("not-restored", "pymoo.a:A.snap2 self.o"), ("not-restored-on-failure", "pymoo.a:A.snap2 self.o"), ("not-restored-on-failure", "pymoo.a:A.two self.c"),
           ("not-restored-on-failure", "pymoo.a:A.three self.c"), ("not-restored", "pymoo.a:A.three self.c"), ("not-restored-on-failure", "pymoo.a:diff pymoo.g.active"), ("option-overwritten", "pymoo.a:use quiet")]),
]
