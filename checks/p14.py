"""P14 - options that are accepted take effect."""
import ast
from sa.model import *
from sa.util import *

EXPLANATION = (
    "A def-use graph is built over all functions of the package: definitions of parameters and local variables (reaching definitions), attributes of objects by class family, "
    "parameters of resolved callees. An option is live if a chain of definitions leads from it to an effect: a returned or raised value, a mutation, a call that is not pure, "
    "a branch that decides about one of these. Reads that only validate or only provide a default do not count. For every constructor, the chain of base constructors is then "
    "inlined to see whether the attribute that holds an option is replaced before anything reads it. "
    "An option stored under the name of another option, and the result of a pure computation that is dropped, are reported as well."
)
ASSUMPTIONS = ["an external call or a call that does not resolve uses its arguments", "an attribute read on an object of unknown class may be any attribute of that name"]

PURE = {"len", "int", "float", "str", "bool", "abs", "min", "max", "sum", "list", "tuple", "dict", "set", "range", "isinstance", "type", "sorted", "zip", "enumerate", "round",
        "any", "all", "reversed", "repr", "callable", "hasattr", "id", "frozenset"}
LIVE = ("LIVE",)
BUILTIN = {n for t in (list, dict, str, set, tuple, float, int) for n in dir(t)} | {"all", "any", "max", "min", "sum", "mean", "size", "reshape", "astype", "argsort", "flatten", "ravel"}


def run(repo, rep):
    rep.rule("option-ignored", "an option that a constructor accepts by name has no effect on the object")
    rep.rule("parameter-ignored", "a parameter of a public function or method has no effect on its result")
    rep.rule("option-replaced", "the value given for an option is replaced before anything reads it")
    rep.rule("option-mixed", "an option is handed on, or stored, under the name of another option")
    rep.rule("options-dropped", "a constructor accepts further options and drops them")
    G = Graph(repo)
    G.build()
    live = G.live()
    constructors(repo, rep, G, live)
    functions(repo, rep, G, live)
    mixed(repo, rep)
    replaced(repo, rep, G, live)
    if not getattr(repo, "mini", False):
        for k, m in [("constructors", 150), ("options", 500), ("functions", 100), ("parameters", 200), ("constructor_chains", 150), ("attributes_followed", 300)]:
            rep.floor(k, m)


def receiver(repo, e, f, depth=0):
    if depth > 5 or e is None:
        return None
    if isinstance(e, ast.Call):
        r = repo.resolve(e.func, f.module, f)
        return {r} if isinstance(r, Class) else None
    if isinstance(e, ast.IfExp):
        return both(receiver(repo, e.body, f, depth + 1), receiver(repo, e.orelse, f, depth + 1))
    if isinstance(e, ast.Constant):
        return set() if e.value is None else None
    if isinstance(e, ast.Name):
        if e.id in f.args + f.kwonly or e.id not in repo.local_names(f):
            return None
        vals = repo.local_assigns(f).get(e.id, [])
    elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == repo.self_name(f):
        C = repo.enclosing_class(f)
        vals = []
        for D in (C.family() if C is not None else ()):
            vals += repo.attr_assigns(D).get(e.attr, [])
        if any(v is None or g is None for g, v in vals) or not vals or e.attr in assigned_elsewhere(repo):
            return None
        out = set()
        for g, v in vals:
            out = both(out, receiver(repo, v, g, depth + 1))
        return out or None
    else:
        return None
    if not vals or any(v is None for v in vals):
        return None
    out = set()
    for v in vals:
        out = both(out, receiver(repo, v, f, depth + 1))
    return out or None


def both(a, b):
    return None if a is None or b is None else a | b


def assigned_elsewhere(repo):
    """names of attributes that are written through something else than self, or by name"""
    if not hasattr(repo, "_assigned_elsewhere"):
        out = set()
        for f in repo.funcs.values():
            sn = repo.self_name(f)
            for n in f.walk():
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(n.value, ast.Name) and n.value.id == sn):
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
        repo._assigned_elsewhere = out
    return repo._assigned_elsewhere


# ---------------------------------------------------------------------------------------------- def-use graph

class Graph:
    def __init__(self, repo):
        self.repo = repo
        self.succ = {}
        self.reads = {}        # attribute name -> set of (class or None) with a node ("R", class, attr)
        self.stores = set()    # ("A", class, attr)
        self.deadfuncs = unreferenced(repo)
        self.conj = {}         # an argument of a constructor: the object has to use it and the object has to be used

    def edge(self, a, sinks):
        if sinks:
            self.succ.setdefault(a, set()).update(sinks)

    def build(self):
        for f in sorted(self.repo.funcs.values(), key=lambda x: x.id):
            if f in self.deadfuncs:
                continue
            DefUse(self, f).run()
        # a stored attribute flows into the reads of the classes that can share the object
        for (_, C, a) in self.stores:
            for D in self.reads.get(a, ()):
                if C is None or D is None or related(C, D):
                    self.edge(("A", C, a), {("R", D, a)})

    def live(self):
        pred = {}
        for a, ss in self.succ.items():
            for s in ss:
                pred.setdefault(s, []).append(a)
        wake = {}
        for k, (pn, sinks) in self.conj.items():
            for s in [pn] + list(sinks):
                wake.setdefault(s, []).append(k)
        seen, todo = {LIVE}, [LIVE]
        while todo:
            n = todo.pop()
            for p in pred.get(n, ()):
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
            for k in wake.get(n, ()):
                pn, sinks = self.conj[k]
                if k not in seen and pn in seen and any(s in seen for s in sinks):
                    seen.add(k)
                    todo.append(k)
        return seen


_rel = {}


def related(C, D):
    k = (C.id, D.id, id(C))
    if k not in _rel:
        fam = {c.id for c in C.family()}
        _rel[k] = any(d.id in fam for d in D.family())
    return _rel[k]


def unreferenced(repo):
    """private functions that nothing refers to"""
    names = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                names.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                names.add(n.value)
            elif isinstance(n, ast.alias):
                names.add(n.name.split(".")[-1])
    return {f for f in repo.funcs.values() if f.name.startswith("_") and not f.name.startswith("__") and f.name not in names}


def plain(t):
    """a flag (and not a comparison)"""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
    return isinstance(t, (ast.Name, ast.Attribute))


def record(C):
    """a class that only carries data for its user"""
    return C is not None and not any(n for c in C.mro if isinstance(c, Class) for n in c.methods if not (n.startswith("__") and n.endswith("__"))) \
        and not any(b for b in C.mro if not isinstance(b, Class) and "object" not in str(b))


class DefUse:
    """reaching definitions of one function; every use is an edge from the definition to what the value flows into"""

    def __init__(self, G, f):
        self.G, self.f, self.repo = G, f, G.repo
        self.cls = self.repo.enclosing_class(f)
        self.sn = self.repo.self_name(f)
        self.locals = self.repo.local_names(f)

    def dnode(self, name, n):
        return ("D", self.f.id, name, n.lineno, n.col_offset) if n is not None else ("P", self.f.id, name)

    def run(self):
        f = self.f
        env = {}
        for p in f.all_params + [x for x in (f.vararg, f.kwarg) if x]:
            env[p] = {("P", f.id, p)}
        node = f.node
        if isinstance(node, ast.Lambda):
            self.ex(node.body, env, {LIVE})
            return
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
            pass
        self.block(node.body, env)

    # statements -------------------------------------------------------------------------
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {k: set(v) for k, v in a.items()}
        for k, v in b.items():
            out.setdefault(k, set()).update(v)
        return out

    def stmt(self, s, env):
        if isinstance(s, (ast.Return,)):
            if s.value is not None:
                self.ex(s.value, env, {LIVE})
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ex(x, env, set())
            return None
        if isinstance(s, ast.Assert):
            self.ex(s.test, env, set())
            return env
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ex(s.value, env, {LIVE} if self.effect_call(s.value) else set())
            return env
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            return self.assign(s, env)
        if isinstance(s, ast.If):
            self.ex(s.test, env, self.effects(s.body + s.orelse, s.test))
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            e = {k: set(v) for k, v in env.items()}
            for _ in range(3):
                cur = {k: set(v) for k, v in e.items()}
                if isinstance(s, ast.While):
                    self.ex(s.test, cur, self.effects(s.body, s.test))
                else:
                    sinks = self.effects(s.body, None)
                    nodes = self.bind(s.target, cur)
                    self.ex(s.iter, e, sinks | nodes)
                r = self.block(s.body, cur)
                n = self.join(e, r)
                n = self.join(n, self.loop_defs(s.body))
                if n == e:
                    break
                e = n
            return self.block(s.orelse, e) if s.orelse else e
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            a = self.block(s.body, {k: set(v) for k, v in env.items()})
            mid = self.join(env, self.loop_defs(s.body))
            out = self.block(s.orelse, a) if (s.orelse and a is not None) else a
            for h in s.handlers:
                m = {k: set(v) for k, v in mid.items()}
                if h.name:
                    m[h.name] = set()
                out = self.join(out, self.block(h.body, m))
            if s.finalbody:
                fin = self.block(s.finalbody, self.join(mid, out) if out is not None else mid)
                return fin if out is not None else None
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                nodes = self.bind(it.optional_vars, env) if it.optional_vars is not None else set()
                self.ex(it.context_expr, env, {LIVE})
            return self.block(s.body, env)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.capture(s, env)
            env = dict(env)
            env[s.name] = set()
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.ex(t, env, {LIVE})
            return env
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if s.__class__.__name__ == "Match":
            self.ex(s.subject, env, {LIVE})
            out = env
            for c in s.cases:
                out = self.join(out, self.block(c.body, {k: set(v) for k, v in env.items()}))
            return out
        return env

    def loop_defs(self, body):
        out = {}
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.setdefault(n.id, set()).add(self.dnode(n.id, n))
        return out

    def assign(self, s, env):
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return env
            targets = [s.target]
        elif isinstance(s, ast.AugAssign):
            targets = [s.target]
        else:
            targets = s.targets
        env = dict(env)
        if len(targets) == 1 and isinstance(targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(targets[0].elts) \
                and not any(isinstance(x, ast.Starred) for x in s.value.elts + targets[0].elts):
            old = dict(env)
            for t, v in zip(targets[0].elts, s.value.elts):
                self.ex(v, old, self.tsinks(t, old))
            for t in targets[0].elts:
                self.bind(t, env)
            return env
        sinks = set()
        for t in targets:
            sinks |= self.tsinks(t, env)
        self.ex(s.value, env, sinks)
        if isinstance(s, ast.AugAssign):
            t = s.target
            if isinstance(t, ast.Name):
                for d in env.get(t.id, ()):
                    self.G.edge(d, {self.dnode(t.id, t)})
                env[t.id] = {self.dnode(t.id, t)}
            return env
        for t in targets:
            self.bind(t, env)
        return env

    def tsinks(self, t, env):
        """graph nodes that a value assigned to the target flows into (index expressions are used as well)"""
        if isinstance(t, ast.Name):
            if t.id in self.locals:
                return {self.dnode(t.id, t)}
            return {LIVE}
        if isinstance(t, (ast.Tuple, ast.List)):
            out = set()
            for x in t.elts:
                out |= self.tsinks(x, env)
            return out
        if isinstance(t, ast.Starred):
            return self.tsinks(t.value, env)
        if isinstance(t, ast.Attribute):
            return {self.store(t, env)}
        if isinstance(t, ast.Subscript):
            s = self.holder(t.value, env)
            self.ex(t.slice, env, s)
            return s
        return {LIVE}

    def store(self, t, env):
        C = self.cls if isinstance(t.value, ast.Name) and t.value.id == self.sn and self.sn else None
        n = ("A", C, t.attr)
        self.G.stores.add(n)
        if record(C):
            self.G.edge(n, {LIVE})
        if C is None:
            # the object itself may be a local that nothing else uses; an attribute of an unknown object counts by name
            self.ex(t.value, env, set())
        return n

    def holder(self, e, env):
        """what a change inside the object e flows into"""
        if isinstance(e, ast.Name):
            ds = env.get(e.id)
            if ds is None or any(d[0] == "P" for d in ds):
                for d in ds or ():
                    self.G.edge(d, {LIVE})      # the caller sees the change
                return {LIVE}
            out = set()
            for d in ds:
                out.add(("M",) + d)
                self.G.edge(("M",) + d, {d})
            return out or {LIVE}
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.sn and self.sn:
                n = ("A", self.cls, e.attr)
                self.G.stores.add(n)
                return {n}
            return {LIVE}
        if isinstance(e, ast.Subscript):
            return self.holder(e.value, env)
        return {LIVE}

    def bind(self, t, env):
        out = set()
        if isinstance(t, ast.Name):
            env[t.id] = {self.dnode(t.id, t)}
            out |= env[t.id]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                out |= self.bind(x, env)
        elif isinstance(t, ast.Starred):
            out |= self.bind(t.value, env)
        else:
            out |= self.tsinks(t, env)
        return out

    def effects(self, body, test):
        """what the decision to execute the block influences"""
        out = set()
        only = None if test is None or plain(test) else {n.id for n in ast.walk(test) if isinstance(n, ast.Name)} & self.locals
        for s in body:
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                out.add(LIVE)
            elif isinstance(s, ast.Raise):
                if only is None or len(only) != 1:
                    out.add(LIVE)
            elif isinstance(s, ast.Expr):
                if not isinstance(s.value, ast.Constant):
                    if self.effect_call(s.value):
                        out.add(LIVE)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    out |= self.esinks(t)
            elif isinstance(s, ast.If):
                out |= self.effects(s.body + s.orelse, test)
            elif isinstance(s, (ast.For, ast.While, ast.With, ast.AsyncWith, ast.AsyncFor)):
                out |= self.effects(s.body + getattr(s, "orelse", []), None)
                if isinstance(s, ast.For):
                    out |= self.esinks(s.target)
            elif isinstance(s, ast.Try):
                out |= self.effects(s.body + s.orelse + s.finalbody + [x for h in s.handlers for x in h.body], None)
            elif isinstance(s, (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
                pass
            else:
                out.add(LIVE)
        return out

    def esinks(self, t):
        if isinstance(t, ast.Name):
            return {self.dnode(t.id, t)} if t.id in self.locals else {LIVE}
        if isinstance(t, (ast.Tuple, ast.List)):
            return set().union(*[self.esinks(x) for x in t.elts]) if t.elts else set()
        if isinstance(t, ast.Starred):
            return self.esinks(t.value)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.sn and self.sn:
            return {("A", self.cls, t.attr)}
        return {LIVE}

    def effect_call(self, e):
        """does the expression statement do anything (other than reporting a problem)?"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d and (d.split(".")[0] == "warnings" or d.split(".")[-1] in ("warn", "deprecated")):
                    continue
                return True
        return False

    def capture(self, s, env):
        """free variables of a nested definition are used when it is"""
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in env:
                for d in env[n.id]:
                    self.G.edge(d, {LIVE})
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.read(n, {LIVE}, env)

    # expressions ------------------------------------------------------------------------
    def ex(self, e, env, sinks):
        if e is None or isinstance(e, ast.Constant):
            return
        if isinstance(e, ast.Name):
            for d in env.get(e.id, ()):
                self.G.edge(d, sinks)
            return
        if isinstance(e, ast.Attribute):
            self.read(e, sinks, env)
            if not (isinstance(e.value, ast.Name) and e.value.id == self.sn and self.sn):
                self.ex(e.value, env, sinks)
            return
        if isinstance(e, ast.Call):
            return self.call(e, env, sinks)
        if isinstance(e, ast.Lambda):
            inner = {k: v for k, v in env.items() if k not in {a.arg for a in e.args.args + e.args.kwonlyargs}}
            self.ex(e.body, inner, sinks)
            for d in e.args.defaults:
                self.ex(d, env, sinks)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(env)
            for g in e.generators:
                nodes = self.bind(g.target, env)
                self.ex(g.iter, env, sinks | nodes)
                for c in g.ifs:
                    self.ex(c, env, sinks)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ex(x, env, sinks)
            return
        if isinstance(e, ast.NamedExpr):
            self.ex(e.value, env, sinks | {self.dnode(e.target.id, e.target)})
            env[e.target.id] = {self.dnode(e.target.id, e.target)}
            return
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            self.ex(e.value, env, {LIVE})
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ex(c, env, sinks)
            elif isinstance(c, ast.keyword):
                self.ex(c.value, env, sinks)

    def read(self, e, sinks, env):
        if isinstance(e.value, ast.Name) and e.value.id == self.sn and self.sn:
            C = self.cls
            # a property or method of the same name is not the attribute
        elif self.is_module(e.value):
            return
        else:
            C = self.receiver(e.value)
        for D in (C if isinstance(C, (list, set, frozenset)) else [C]):
            n = ("R", D, e.attr)
            self.G.reads.setdefault(e.attr, set()).add(D)
            self.G.edge(n, sinks)

    def receiver(self, e):
        """the classes the expression is an instance of, None unless every value it can have is known"""
        return receiver(self.repo, e, self.f)

    def call(self, e, env, sinks):
        fn = e.func
        if isinstance(fn, ast.Attribute):
            # the receiver is used by the call
            r = fn.value
            if not (isinstance(r, ast.Name) and r.id == self.sn and self.sn):
                self.ex(r, env, {LIVE} if not self.is_module(r) else sinks)
            if fn.attr not in BUILTIN and not self.is_module(r):
                self.read(fn, {LIVE}, env)
        elif not isinstance(fn, ast.Name):
            self.ex(fn, env, {LIVE})
        else:
            for d in env.get(fn.id, ()):
                self.G.edge(d, {LIVE})
            if fn.id == "locals":
                for ds in env.values():
                    for d in ds:
                        self.G.edge(d, {LIVE})
        d = dotted(fn)
        if isinstance(fn, ast.Name) and fn.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
            a = e.args[1].value
            self.G.reads.setdefault(a, set()).add(None)
            self.G.edge(("R", None, a), sinks or {LIVE})
        if isinstance(fn, ast.Name) and fn.id in PURE and fn.id not in env:
            for a in e.args:
                self.ex(a.value if isinstance(a, ast.Starred) else a, env, sinks)
            for k in e.keywords:
                self.ex(k.value, env, sinks)
            return
        ts = self.targets(e)
        if ts:
            done = set()
            for t, bound in ts:
                m, star, dstar, extra, xkw = bind_args(e, t, bound)
                pn = {("P", t.id, p) for p in t.params} if star else set()
                for p, a in m.items():
                    if (t.name == "__init__" and not (isinstance(fn, ast.Attribute) and fn.attr == "__init__")) or (len(ts) == 1 and computes(self.repo, t)):
                        k = ("K", self.f.id, e.lineno, e.col_offset, t.id, p)
                        self.G.conj[k] = (("P", t.id, p), set(sinks) | self.G.conj.get(k, (0, set()))[1])
                        self.ex(a, env, {k})
                    else:
                        self.ex(a, env, {("P", t.id, p)})
                    done.add(id(a))
                for a in extra:
                    self.ex(a, env, {("P", t.id, t.vararg)} if t.vararg else {LIVE})
                for a in xkw.values():
                    self.ex(a, env, {("P", t.id, t.kwarg)} if t.kwarg else {LIVE})
                for a in dstar:
                    self.ex(a, env, {LIVE})
            for a in e.args:
                if isinstance(a, ast.Starred):
                    self.ex(a.value, env, {LIVE})
            return
        if self.pure_external(d):
            for a in e.args:
                self.ex(a.value if isinstance(a, ast.Starred) else a, env, sinks)
            for k in e.keywords:
                self.ex(k.value, env, sinks)
            return
        for a in e.args:
            self.ex(a.value if isinstance(a, ast.Starred) else a, env, {LIVE})
        for k in e.keywords:
            self.ex(k.value, env, {LIVE})

    def is_module(self, r):
        try:
            x = self.repo.resolve(r, self.f.module, self.f)
        except Exception:
            x = None
        return isinstance(x, (ModRef, Ext))

    def pure_external(self, d):
        if not d:
            return False
        parts = d.split(".")
        if len(parts) < 2 or parts[0] not in ("np", "numpy", "math", "anp"):
            return False
        return parts[-1] not in ("fill_diagonal", "put", "copyto", "shuffle", "save", "savetxt", "seed", "errstate", "seterr", "place", "put_along_axis")

    def targets(self, e):
        ts = self.repo.resolve_call(e, self.f, fallback=False)
        out = []
        for t in ts or ():
            if isinstance(t, Func):
                out.append((t, None))
            else:
                return []
        return out


# ---------------------------------------------------------------------------------------------- obligations

FRESH = {"zeros", "ones", "full", "empty", "array", "copy", "zeros_like", "ones_like", "full_like", "empty_like", "arange", "linspace"}
VIEWED = {"sum", "mean", "min", "max", "argmin", "argmax", "argsort", "any", "all", "reshape", "astype", "copy", "flatten", "ravel", "dot", "std", "cumsum", "prod", "transpose", "round", "clip", "items", "keys", "values", "get"}


def computes(repo, f, trail=()):
    """nothing comes of calling the function but its result: it writes to nothing, draws nothing, cannot refuse its arguments"""
    memo = repo.__dict__.setdefault("_p14_computes", {})
    if f.id in memo:
        return memo[f.id]
    if f in trail or isinstance(f.node, ast.Lambda):
        return False
    memo[f.id] = _computes(repo, f, trail + (f,))
    return memo[f.id]


def _computes(repo, f, trail):
    if f.is_generator if hasattr(f, "is_generator") else any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)):
        return False
    if f.cls is not None or f.parent is not None or f.node.decorator_list:
        return False
    if not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node)):
        return False
    fresh = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and (isinstance(n.value, (ast.List, ast.Dict, ast.ListComp)) or isinstance(n.value, ast.Call) and (dotted(n.value.func) or "").split(".")[-1] in FRESH)
             for t in n.targets if isinstance(t, ast.Name)} - set(f.args)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Global, ast.Nonlocal, ast.Delete, ast.With, ast.Try, ast.FunctionDef, ast.Lambda)) and n is not f.node:
            return False
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            return False
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in fresh):
            return False
        if isinstance(n, ast.AugAssign) and not (isinstance(n.target, ast.Name) and n.target.id in fresh):
            return False
        if isinstance(n, ast.Call):
            d = dotted(n.func) or ""
            if any(k.arg == "out" for k in n.keywords):
                return False
            if isinstance(n.func, ast.Name) and n.func.id in PURE:
                continue
            head = d.split(".")
            if len(head) > 1 and head[0] in ("np", "numpy", "math") and "random" not in head and head[-1] not in ("fill_diagonal", "put", "copyto", "place", "put_along_axis", "save", "savetxt", "errstate", "seterr", "shuffle"):
                continue
            ts = repo.resolve_call(n, f, fallback=False) or ()
            if ts and all(isinstance(t, Func) and computes(repo, t, trail) for t in ts):
                continue
            if isinstance(n.func, ast.Attribute) and (n.func.attr in VIEWED or n.func.attr == "append" and isinstance(n.func.value, ast.Name) and n.func.value.id in fresh):
                continue
            return False
    return True


def public_module(m):
    return not any(p.startswith("_") for p in m.name.split("."))


def skip_module(m):
    return any(x in m.name for x in (".vendor", ".cython", ".docs", ".tests"))


def constructors(repo, rep, G, live):
    for C in sorted(repo.classes.values(), key=lambda c: c.id):
        new = C.methods.get("__new__")
        f = C.methods.get("__init__")
        if skip_module(C.module):
            continue
        if new is not None:
            for p in named(new)[0 if new.args[:1] != new.params[:1] else 1:]:
                rep.count("options")
                if ("P", new.id, p) not in live:
                    rep.add("option-ignored", f"{C.id}.{p}", new.loc, f"the option {p} of {C.name} has no effect: nothing that can be observed depends on it")
        if f is None:
            continue
        rep.count("constructors")
        for p in named(f):
            rep.count("options")
            if ("P", f.id, p) not in live:
                rep.add("option-ignored", f"{C.id}.{p}", f.loc, f"the option {p} of {C.name} has no effect: nothing that can be observed depends on it")
        if f.kwarg:
            rep.count("options_forwarded")
            if ("P", f.id, f.kwarg) not in live and takes_options(C):
                rep.add("options-dropped", f"{C.id}.**{f.kwarg}", f.loc, f"the constructor of {C.name} accepts further options and drops them")
    rep.count("attributes_followed", len(G.stores))


def takes_options(C):
    """a base class has options that the constructor could pass on"""
    return any(isinstance(b, Class) and "__init__" in b.methods and named(b.methods["__init__"]) for b in C.mro[1:])


def named(f):
    ps = list(f.params) + list(f.kwonly)
    return [p for p in ps if not p.startswith("_")]


def functions(repo, rep, G, live):
    values = used_as_value(repo)
    for f in sorted(repo.funcs.values(), key=lambda x: x.id):
        if f.name.startswith("_") or skip_module(f.module) or f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        C = f.cls
        if C is None and f.name in values:
            rep.count("callbacks_not_covered")
            continue
        if C is not None:
            if any(b for b in C.mro[1:] if not isinstance(b, Class) and "object" not in str(b)):
                continue
        if trivial(f) or validator(f):
            continue
        rep.count("functions")
        fam = [f] if C is None else [f] + [c.methods[f.name] for c in C.family() if f.name in c.methods and c is not C]
        if f.kwarg and C is None and ("P", f.id, f.kwarg) not in live and builds(repo, f):
            rep.add("options-dropped", f"{f.id}.**{f.kwarg}", f.loc, f"{f.name} accepts further options and drops them instead of passing them to the object it builds")
        given = dictated(C, f)
        for p in named(f):
            if p in given:
                continue
            rep.count("parameters")
            if not any(("P", g.id, p) in live for g in fam):
                rep.add("parameter-ignored", f"{f.id}.{p}", f.loc, f"the parameter {p} of {f.name} has no effect")


def dictated(C, f):
    """the parameters that a base class prescribes for the method"""
    out = set()
    for b in (C.mro[1:] if C is not None else ()):
        g = b.methods.get(f.name) if isinstance(b, Class) else None
        if g is not None:
            out |= set(g.params) | set(g.kwonly) | set(f.params[:len(g.params)])
    return out


def used_as_value(repo):
    """names of functions that are passed around as values: their signature is dictated by the caller"""
    out = set()
    for m in repo.modules.values():
        calls = {id(n.func) for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in calls:
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in calls:
                out.add(n.attr)
    return out


def trivial(f):
    """abstract or empty"""
    for s in f.node.body:
        if isinstance(s, (ast.Pass, ast.Raise)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, (ast.Constant, ast.Name)) or (isinstance(s.value, (ast.List, ast.Dict, ast.Tuple)) and not ast.dump(s.value).count("Name("))):
            continue
        return False
    return True


def builds(repo, f):
    """the function builds an object whose constructor takes more options than it is given"""
    rets = [n.value for n in f.walk() if isinstance(n, ast.Return) and n.value is not None]
    names = {r.id for r in rets if isinstance(r, ast.Name)}
    vals = rets + [n.value for n in f.walk() if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets)]
    for n in vals:
        if isinstance(n, ast.Call) and dotted(n.func):
            c = repo.resolve(n.func, f.module, f)
            i = c.lookup("__init__") if isinstance(c, Class) else None
            if isinstance(i, Func) and i.kwarg and not any(k.arg is None for k in n.keywords):
                return True
    return False


def validator(f):
    """a function whose only purpose is to raise"""
    ns = list(ast.walk(f.node))
    return any(isinstance(n, ast.Raise) for n in ns) and not any(isinstance(n, ast.Return) and n.value is not None for n in ns) \
        and not any(isinstance(n, (ast.Assign, ast.AugAssign, ast.For, ast.While)) for n in ns)


def mixed(repo, rep):
    """the attribute, or the argument, named after one option of a function receives another of its options - and never its own"""
    for f in sorted(repo.funcs.values(), key=lambda x: x.id):
        if isinstance(f.node, ast.Lambda) or skip_module(f.module) or f.parent is not None:
            continue
        if f.name in ("__init__", "__new__"):
            ps = set(named(f))
        elif not f.name.startswith("_"):
            ps = {p for p in named(f) if p in f.defaults}
        else:
            continue
        stored = {n.id for n in f.walk() if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if len(ps) < 2:
            continue
        got = {}
        for n in f.walk():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        pairs = list(zip(t.elts, n.value.elts))
                    else:
                        pairs = [(t, n.value)]
                    for a, v in pairs:
                        if isinstance(a, ast.Attribute) and a.attr in ps and isinstance(a.value, ast.Name):
                            got.setdefault(a.attr, []).append((v, n))
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg in ps:
                        got.setdefault(k.arg, []).append((k.value, n))
                if f.name in ("__init__", "__new__") and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
                    ts = repo.resolve_call(n, f, fallback=False) or []
                    ts = ts if isinstance(ts, (list, set, tuple)) else [ts]
                    for g in [g for g in ts if isinstance(g, Func) and g.name == "__init__"][:1]:
                        for a, p in zip(n.args, g.params):
                            if p in ps:
                                got.setdefault(p, []).append((a, n))
        for q, vs in sorted(got.items()):
            rep.count("options_handed_on")
            other = [(v, n) for v, n in vs if isinstance(v, ast.Name) and v.id in ps and v.id != q]
            bad = [(v, n) for v, n in other if swapped(got, q, v.id, n)] or (other if len(other) == len(vs) and not any({q, v.id} & stored for v, _ in vs) else [])
            if bad:
                vs = bad
                rep.add("option-mixed", f"{f.id}.{q}", f"{f.module.rel}:{vs[0][1].lineno} {f.qual}" if hasattr(f, "qual") else f.loc,
                        f"the option {vs[0][0].id} is handed on under the name of the option {q}")


def swapped(got, q, p, node):
    return any(n is node and isinstance(v, ast.Name) and v.id == q for v, n in got.get(p, ()))


def replaced(repo, rep, G, live):
    """run the whole chain of constructors of every class and see which options survive it"""
    alg = repo.cls("Algorithm", required=False)
    for C in sorted(repo.classes.values(), key=lambda c: c.id):
        f = C.lookup("__init__")
        if not isinstance(f, Func) or skip_module(C.module):
            continue
        rep.count("constructor_chains")
        ch = Chain(repo, G, live, C)
        opts = ch.construct(f)
        if alg is not None and alg in C.mro:
            s = C.lookup("setup")
            if isinstance(s, Func):
                ch.inline = {"_setup"}
                ch.method(s)
        eff = set(ch.consumed)
        for a, ts in ch.attrs.items():
            eff |= ts
        if alg is not None and alg in C.mro:
            # an option of the algorithms that only the methods of other algorithms read
            seen = set(ch.consumed).union(*[ts for a, ts in ch.attrs.items() if ch.alive(a)])
            for o in sorted((eff & set(opts)) - seen):
                if o not in named(f) and opts[o] in live:
                    rep.add("option-ignored", f"{C.id}.{o}", f.loc, f"the option {o} has no effect on {C.name}: only other algorithms read it")
        for o in sorted(opts):
            rep.count("options_followed")
            if o not in eff and (o not in named(f) or ("P", f.id, o) in live) and opts[o] in live:
                rep.add("option-replaced", f"{C.id}.{o}", f.loc, f"the value given to {C.name} for the option {o} is replaced before anything uses it")


class Chain:
    """taint interpretation of the constructors of one class, base constructors included: which options does the value of an attribute depend on"""

    def __init__(self, repo, G, live, C):
        self.repo, self.G, self.livenodes, self.C = repo, G, live, C
        self.attrs, self.consumed, self.opts = {}, set(), {}
        self.inline = set()
        self.depth = 0

    def alive(self, a):
        for D in self.G.reads.get(a, ()):
            if ("R", D, a) in self.livenodes and (D is None or related(D, self.C)):
                return True
        return False

    def construct(self, f):
        env = {}
        for p in named(f):
            self.opts[p] = ("P", f.id, p)
            env[p] = {p}
        if f.kwarg:
            env[f.kwarg] = {"**"}
        if f.vararg:
            env[f.vararg] = set()
        self.function(f, env)
        return self.opts

    def method(self, f):
        self.function(f, {})

    def function(self, f, env):
        if self.depth > 8:
            self.consume_all()
            return
        self.depth += 1
        saved = getattr(self, "f", None), getattr(self, "sn", None)
        self.f, self.sn = f, f.selfname
        self.block(f.node.body, env, frozenset())
        self.f, self.sn = saved
        self.depth -= 1

    def consume_all(self):
        for a, ts in self.attrs.items():
            self.consumed |= ts

    # -----------------------------------------------------------------------------------
    def block(self, body, env, ctl):
        """returns False if the end of the block is not reached"""
        for s in body:
            if not self.stmt(s, env, ctl):
                return False
        return True

    def fork(self, bodies, env, ctl):
        """alternatives; the states at their ends are joined"""
        a0, res, ends = self.attrs, [], False
        for b in bodies:
            self.attrs = dict(a0)
            e = dict(env)
            if self.block(b, e, ctl):
                res.append((self.attrs, e))
        if not res:
            self.attrs = a0
            return False
        at, en = {}, {}
        for x, y in res:
            for k, v in x.items():
                at[k] = at.get(k, frozenset()) | v
            for k, v in y.items():
                if isinstance(v, dict):
                    d = en.get(k, {})
                    en[k] = {n: set(d.get(n, ())) | set(v.get(n, ())) for n in set(d) | set(v)}
                elif k == "**closed":
                    en[k] = True
                else:
                    en[k] = set(en.get(k, ())) | set(v)
        self.attrs = at
        env.clear()
        env.update(en)
        return True

    def stmt(self, s, env, ctl):
        if isinstance(s, ast.Expr):
            t = self.ex(s.value, env)
            if not isinstance(s.value, ast.Constant):
                self.consumed |= t
                if self.real_call(s.value):
                    self.consumed |= ctl
            return True
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return True
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if isinstance(s, ast.Assign) and len(ts) == 1 and isinstance(ts[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                    and len(ts[0].elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in ts[0].elts + s.value.elts):
                vals = [frozenset(self.ex(v, env)) for v in s.value.elts]
                for t, v in zip(ts[0].elts, vals):
                    self.put(t, v | ctl, env)
                return True
            v = frozenset(self.ex(s.value, env))
            kws = self.kwnames(s.value, env) if not isinstance(s, ast.AugAssign) and self.is_map(s.value) else []
            if kws and len(ts) == 1 and isinstance(ts[0], ast.Name):
                m = {}
                for kw in kws:
                    m.update(env.get("**" + kw, {}))
                env[ts[0].id] = set(v) | ctl | {"**"}
                env["**" + ts[0].id] = m
                return True
            for t in ts:
                if isinstance(s, ast.AugAssign):
                    v = v | frozenset(self.ex(t, env))
                self.put(t, v | ctl, env)
            return True
        if isinstance(s, ast.If):
            t = frozenset(self.ex(s.test, env))
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, env, ctl)
            return self.fork([s.body, s.orelse], env, ctl | t)
        if isinstance(s, (ast.For, ast.While)):
            t = frozenset(self.ex(s.iter if isinstance(s, ast.For) else s.test, env))
            for _ in range(2):
                if isinstance(s, ast.For):
                    self.put(s.target, t, env)
                self.fork([s.body, []], env, ctl | t)
            self.block(s.orelse, env, ctl)
            return True
        if isinstance(s, ast.Try):
            ok = self.fork([s.body + s.orelse] + [h.body for h in s.handlers] , env, ctl)
            return self.block(s.finalbody, env, ctl) and ok
        if isinstance(s, ast.With):
            for it in s.items:
                self.consumed |= self.ex(it.context_expr, env)
            return self.block(s.body, env, ctl)
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.consumed |= self.ex(s.value, env)
            return True
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, ast.Assert):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in env:
                    self.consumed |= env[n.id]
                elif isinstance(n, ast.Attribute):
                    self.consumed |= self.attrs.get(n.attr, frozenset())
            return True
        return True

    def kwnames(self, e, env):
        return sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and "**" in env.get(n.id, ())})

    def is_map(self, e):
        """an expression that builds a dictionary"""
        if isinstance(e, (ast.Name, ast.Dict, ast.DictComp)):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return True
        return isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in ("dict", "copy", "deepcopy")

    def real_call(self, e):
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ""
            if d.startswith("super") or self.is_super(e):
                return False
            return not (d.split(".")[0] == "warnings" or d.split(".")[-1] == "warn")
        return any(isinstance(n, ast.Call) for n in ast.walk(e))

    def put(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = set(v)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.sn:
                self.attrs[t.attr] = frozenset(v)
            else:
                self.consumed |= v
        elif isinstance(t, ast.Subscript):
            b = t.value
            v = set(v) | self.ex(t.slice, env)
            if isinstance(b, ast.Name) and b.id in env:
                env[b.id] = set(env[b.id]) | v
                if isinstance(t.slice, ast.Constant) and "**" in env[b.id]:
                    k = t.slice.value
                    d = env.setdefault("**" + b.id, {})
                    env["**" + b.id] = {**d, k: set(v) | {k} if k not in d else set(v) | d[k]}
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == self.sn:
                self.attrs[b.attr] = self.attrs.get(b.attr, frozenset()) | v
            else:
                self.consumed |= v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.put(x, v, env)
        elif isinstance(t, ast.Starred):
            self.put(t.value, v, env)

    def ex(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Name):
            if e.id == self.sn:
                return set()
            return set(env.get(e.id, ())) - {"**"}
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.sn:
                if e.attr == "__dict__":
                    return set().union(*self.attrs.values()) if self.attrs else set()
                if e.attr in self.attrs:
                    return set(self.attrs[e.attr])
                p = self.C.lookup(e.attr)
                if isinstance(p, Func):
                    return self.reads_of(p)
                return set()
            return self.ex(e.value, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            out = set()
            for n in ast.walk(e.body):
                if isinstance(n, ast.Name) and n.id in env:
                    out |= env[n.id]
                elif isinstance(n, ast.Attribute):
                    out |= self.attrs.get(n.attr, frozenset())
            return out - {"**"}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env, out = dict(env), set()
            for g in e.generators:
                t = self.ex(g.iter, env)
                for n in target_names(g.target):
                    env[n] = set(t)
                out |= t
                for c in g.ifs:
                    out |= self.ex(c, env)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                out |= self.ex(x, env)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e.value, env)
            env[e.target.id] = set(v)
            return v
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and "**" in env.get(e.value.id, ()) and isinstance(e.slice, ast.Constant):
            return self.item(e.value.id, e.slice.value, env)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.left, ast.Constant) \
                and isinstance(e.comparators[0], ast.Name) and "**" in env.get(e.comparators[0].id, ()):
            return self.item(e.comparators[0].id, e.left.value, env)
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.ex(c, env)
        return out

    def item(self, kw, key, env):
        """an entry of the keyword arguments that are passed on"""
        d = env.get("**" + kw, {})
        out = set(d.get(key, ()))
        if "**closed" not in env and key not in d and isinstance(key, str):
            out.add(key)
        return out

    def is_super(self, e):
        """super().m(...) or Base.m(self, ...) -> the method and the shift of the arguments"""
        fn = e.func
        if not isinstance(fn, ast.Attribute):
            return None
        cls = self.repo.enclosing_class(self.f)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            t = self.C.lookup(fn.attr, after=cls) if cls is not None else None
            return (t, True) if isinstance(t, Func) else None
        if isinstance(fn.value, ast.Name) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.sn:
            c = self.repo.resolve(fn.value, self.f.module, self.f)
            if isinstance(c, Class):
                t = c.lookup(fn.attr)
                return (t, False) if isinstance(t, Func) else None
        return None

    def call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Attribute) and fn.attr in ("get", "pop", "setdefault") and isinstance(fn.value, ast.Name) and "**" in env.get(fn.value.id, ()) \
                and e.args and isinstance(e.args[0], ast.Constant):
            return self.item(fn.value.id, e.args[0].value, env).union(*[self.ex(a, env) for a in e.args[1:]])
        sup = self.is_super(e)
        if sup is not None and (sup[0].name == "__init__" or sup[0].name == self.f.name):
            t, bound = sup
            new, given, open_ = {}, {}, False
            c2 = e
            if not bound:
                c2 = ast.copy_location(ast.Call(func=e.func, args=e.args[1:], keywords=e.keywords), e)
            m, star, dstar, extra, xkw = bind_args(c2, t)
            spread = set()
            for d in dstar:
                for kw in self.kwnames(d, env):
                    open_ = open_ or "**closed" not in env
                    given.update(env.get("**" + kw, {}))
                if not isinstance(d, ast.Name):
                    spread |= self.ex(d, env)
            for p in t.all_params:
                if p in m:
                    new[p] = self.ex(m[p], env)
                elif star:
                    new[p] = set().union(*[self.ex(a.value, env) for a in e.args if isinstance(a, ast.Starred)])
                elif p in given:
                    new[p] = set(given[p]) | spread
                elif open_:
                    if t.name == "__init__" and not p.startswith("_"):
                        if p not in self.opts:
                            self.opts[p] = ("P", t.id, p)
                        new[p] = {p} | spread
                else:
                    new[p] = set(spread)
            rest = set()
            for x in extra + list(xkw.values()):
                rest |= self.ex(x, env)
            for d in dstar:
                rest |= self.ex(d, env)
            if t.vararg:
                new[t.vararg] = set(rest)
            if t.kwarg:
                new[t.kwarg] = set(rest) | {"**"} if open_ else set(rest)
                new["**" + t.kwarg] = {**given, **{k: self.ex(v, env) for k, v in xkw.items()}}
                if not open_ and new["**" + t.kwarg]:
                    new[t.kwarg].add("**")
                    new["**closed"] = True
            elif rest:
                self.consumed |= rest
            self.function(t, new)
            return set()
        out = set()
        for a in e.args:
            a = a.value if isinstance(a, ast.Starred) else a
            if isinstance(a, ast.Name) and a.id == self.sn:
                self.consume_all()
            out |= self.ex(a, env)
        for k in e.keywords:
            if isinstance(k.value, ast.Name) and k.value.id == self.sn:
                self.consume_all()
            out |= self.ex(k.value, env)
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == self.sn:
                t = self.C.lookup(fn.attr)
                if isinstance(t, Func) and fn.attr in self.inline:
                    self.consumed |= out
                    self.function(t, {p: set() for p in t.all_params})
                    return set()
                if isinstance(t, Func):
                    self.consumed |= self.reads_of(t)
                else:
                    self.consumed |= self.attrs.get(fn.attr, frozenset())
                self.consumed |= out
            elif sup is not None:
                self.consumed |= self.reads_of(sup[0]) | out
            else:
                r = self.ex(fn.value, env)
                out |= r
                # a method may change its receiver
                if isinstance(fn.value, ast.Name) and fn.value.id in env:
                    env[fn.value.id] = set(env[fn.value.id]) | out
                elif isinstance(fn.value, ast.Attribute) and isinstance(fn.value.value, ast.Name) and fn.value.value.id == self.sn:
                    self.attrs[fn.value.attr] = self.attrs.get(fn.value.attr, frozenset()) | frozenset(out)
        elif isinstance(fn, ast.Name) and fn.id == "locals":
            out |= set().union(*[v for v in env.values() if isinstance(v, set)]) - {"**"} if env else set()
        elif not isinstance(fn, ast.Name):
            out |= self.ex(fn, env)
        else:
            out |= set(env.get(fn.id, ())) - {"**"}
        return out

    def reads_of(self, t):
        """options that a method of the object can see through the attributes it (transitively) reads"""
        out, seen, todo = set(), set(), [t]
        while todo:
            g = todo.pop()
            if g in seen or len(seen) > 60:
                continue
            seen.add(g)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == g.selfname:
                    out |= self.attrs.get(n.attr, frozenset())
                    h = self.C.lookup(n.attr)
                    if isinstance(h, Func):
                        todo.append(h)
                elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == g.selfname for a in n.args + [k.value for k in n.keywords]):
                    for v in self.attrs.values():
                        out |= v
        return out


SELFTESTS = [
    ("ignored", {"pymoo/core/op.py": "class Op:\n    def __init__(self, prob, eta, used, **kw):\n        self.prob = prob\n        self.used = used\n        if eta is None:\n            eta = 3\n        assert eta > 0\n"
                                     "    def do(self, X, n):\n        if self.used:\n            X = X + 1\n        n = 2\n        return X\n"},
     [("option-ignored", "pymoo.core.op:Op.prob"), ("option-ignored", "pymoo.core.op:Op.eta"), ("parameter-ignored", "pymoo.core.op:Op.do.n")]),
    ("taken", {"pymoo/core/op.py": "class Op:\n    def __init__(self, prob, eta, check=True, **kw):\n        self.prob = prob if prob is not None else 1\n        self._eta = [eta, 1]\n        self.check = check\n"
                                   "    def do(self, X, n, out):\n        if self.check:\n            raise ValueError\n        out['F'] = 1\n        return self.helper(X, n)\n"
                                   "    def helper(self, X, k):\n        e = self._eta\n        for i in range(k):\n            X = X + self.prob * e[0]\n        return X\n"}, []),
    ("passed to an ignored parameter", {"pymoo/core/op.py": "class Base:\n    def __init__(self, tol, **kw):\n        self.x = 1\n    def do(self):\n        return self.x\n"
                                                            "class Op(Base):\n    def __init__(self, tol=3, **kw):\n        super().__init__(tol)\n"},
     [("option-ignored", "pymoo.core.op:Base.tol"), ("option-ignored", "pymoo.core.op:Op.tol"), ("options-dropped", "pymoo.core.op:Op.**kw")]),
    ("replaced", {"pymoo/core/op.py": "class Base:\n    def __init__(self, tol=None, n=None):\n        self.tol = tol\n        self.n = n\n        if self.n is None:\n            self.n = 3\n    def do(self):\n        return self.tol, self.n\n"
                                      "class Op(Base):\n    def __init__(self, **kw):\n        super().__init__(**kw)\n        self.tol = 1e-8\n"
                                      "class Good(Base):\n    def __init__(self, **kw):\n        super().__init__(**kw)\n        if kw.get('tol') is None:\n            self.tol = 1e-8\n"
                                      "class Fixed(Base):\n    def __init__(self, n=4, **kw):\n        kw['tol'] = 3\n        super().__init__(n=n, **kw)\n"},
     [("option-replaced", "pymoo.core.op:Op.tol")]),
    ("replaced in setup", {"pymoo/core/algorithm.py": "class Algorithm:\n    def __init__(self, verbose=False, **kw):\n        self.verbose = verbose\n    def setup(self, problem, **kw):\n        self.problem = problem\n        print(self.verbose, problem)\n"
                                                      "        self._setup(problem, **kw)\n    def _setup(self, problem, **kw):\n        pass\n    def run(self):\n        return self.problem\n"
                                                      "class Alg(Algorithm):\n    def __init__(self, a=None, b=None, **kw):\n        super().__init__(**kw)\n        self.a, self.b = a, b\n"
                                                      "    def _setup(self, problem, a=None, b=None, **kw):\n        self.a = a\n        if b is not None:\n            self.b = b\n    def run(self):\n        return self.a + self.b\n"},
     [("option-replaced", "pymoo.core.algorithm:Alg.a")]),
    ("only read by others", {"pymoo/core/algorithm.py": "class Algorithm:\n    def __init__(self, verbose=False, **kw):\n        self.verbose = verbose\n    def run(self):\n        return 1\n"
                                                        "class A(Algorithm):\n    def run(self):\n        return self.verbose\n"
                                                        "class B(Algorithm):\n    def __init__(self, **kw):\n        super().__init__(**kw)\n"},
     [("option-ignored", "pymoo.core.algorithm:B.verbose")]),
    ("dropped by a factory", {"pymoo/core/fac.py": "class P:\n    def __init__(self, n, **kw):\n        self.n = n\n        self.kw = kw\n    def do(self):\n        return self.n, self.kw\n"
                                                   "def create(n, **kw):\n    p = P(n)\n    return p\ndef create2(n, **kw):\n    return P(n, **kw)\n"},
     [("options-dropped", "pymoo.core.fac:create.**kw")]),
    ("options mixed", {"pymoo/core/mix.py": """
        class Base:
            def __init__(self, a=1, b=2):
                self.a, self.b = a, b
            def do(self):
                return self.a - self.b

        class Op(Base):
            def __init__(self, a=1, b=2):
                super().__init__(b, a)

        class Good(Base):
            def __init__(self, a=1, b=None):
                super().__init__(a=a, b=a if b is None else b)

        class Fallback(Base):
            def __init__(self, a=1, b=None):
                super().__init__()
                self.b = b
                if self.b is None:
                    self.b = a

        def build(a=1, b=2):
            return Base(a=b, b=a)
        """}, [("option-mixed", "pymoo.core.mix:Op.__init__.a"), ("option-mixed", "pymoo.core.mix:Op.__init__.b"), ("option-mixed", "pymoo.core.mix:build.a"), ("option-mixed", "pymoo.core.mix:build.b")]),
    ("options of __new__", {"pymoo/core/arr.py": """
        class Arr:
            def __new__(cls, n=1, m=2):
                obj = super().__new__(cls)
                obj.n = n
                return obj
            def do(self):
                return self.n

        class Base:
            def do(self, X, *args):
                return X

        class Op(Base):
            def do(self, X, inplace=True, *args):
                return X + 1
        """}, [("option-ignored", "pymoo.core.arr:Arr.m"), ("parameter-ignored", "pymoo.core.arr:Op.do.inplace")]),
    ("result dropped", {"pymoo/core/sc.py": """
        import numpy as np

        def scale(X, s):
            n = X.shape[1]
            return X * s + (1 - s) / n

        class Op:
            def __init__(self, s=None):
                self.s = s
            def do(self, X):
                if self.s is not None:
                    Y = scale(X, self.s)
                return X + 1

        class Good:
            def __init__(self, r=None):
                self.r = r
            def do(self, X):
                if self.r is not None:
                    X = scale(X, self.r)
                return X + 1
        """}, [("option-ignored", "pymoo.core.sc:Op.s")]),
]
