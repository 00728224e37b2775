"""Interprocedural analysis of randomness: which calls consume randomness and which pass a generator."""
import ast
from .model import *

DECORATOR = "pymoo.util:default_random_state"
# module-level functions of numpy.random / random that create or seed rather than draw
SEEDED_CTORS = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator",
                "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.Philox",
                "random.Random"}


def is_global_random(path):
    return path.startswith("numpy.random.") or path == "numpy.random" or path.startswith("random.") or path == "random" \
        or path.startswith("secrets.") or path in ("os.urandom", "uuid.uuid4", "uuid.uuid1")


class Rng:
    def __init__(self, repo):
        self.repo = repo
        self.funcs = list(repo.funcs.values())
        self.rs_params = {}
        for f in self.funcs:
            s = {p for p in f.args + f.kwonly if p in ("random_state",)}
            self.rs_params[f] = s
        self.returns_rs = set()
        self._guards = {}
        self.decorated = {}       # f -> seed given?
        for f in self.funcs:
            for d in getattr(f.node, "decorator_list", []):
                t = d.func if isinstance(d, ast.Call) else d
                r = repo.resolve(t, f.module, f.parent)
                if isinstance(r, Func) and r.id == DECORATOR:
                    self.decorated[f] = isinstance(d, ast.Call) and (bool(d.args) or any(k.arg == "seed" for k in d.keywords))
        self.calls = {}
        for f in self.funcs:
            self.calls[f] = [n for n in f.walk() if isinstance(n, ast.Call)]
        self.targets = {}
        for f in self.funcs:
            cs = repo.contexts(f)
            for c in self.calls[f]:
                s = set()
                for C in cs:
                    s |= {t for t, _ in repo.ctx_targets(c, f, C)}
                self.targets[id(c)] = s
        self._fix_rs_kinds()
        self._fix_draws()

    # ---------------------------------------------------------------- kinds
    def scope_func(self, f, name):
        g = f
        while g is not None:
            if name in self.repo.local_names(g):
                return g
            g = g.parent
        return None

    def is_rs(self, e, f, depth=0):
        if e is None or depth > 6:
            return False
        if isinstance(e, ast.Name):
            g = self.scope_func(f, e.id)
            if g is None:
                r = self.repo.resolve(e, f.module, None)
                if isinstance(r, Var) and r.node is not None and isinstance(r.node, ast.Call):
                    return self.ctor_kind(r.node, f) == "seeded"
                return False
            if e.id in self.rs_params[g]:
                return True
            vals = self.repo.local_assigns(g).get(e.id, [])
            vals = [v for v in vals if v is not None and not (isinstance(v, ast.Name) and v.id == e.id)]
            return bool(vals) and all(self.is_rs(v, g, depth + 1) for v in vals)
        if isinstance(e, ast.Attribute):
            return e.attr == "random_state"
        if isinstance(e, ast.IfExp):
            return self.is_rs(e.body, f, depth + 1) and self.is_rs(e.orelse, f, depth + 1)
        if isinstance(e, ast.BoolOp):
            return self.is_rs(e.values[-1], f, depth + 1)
        if isinstance(e, ast.Subscript):
            return isinstance(e.slice, ast.Constant) and e.slice.value == "random_state"
        if isinstance(e, ast.NamedExpr):
            return self.is_rs(e.value, f, depth + 1)
        if isinstance(e, ast.Call):
            if self.ctor_kind(e, f) == "seeded":
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop") and e.args \
                    and isinstance(e.args[0], ast.Constant) and e.args[0].value == "random_state":
                return True
            if isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) > 1 \
                    and isinstance(e.args[1], ast.Constant) and e.args[1].value == "random_state":
                return True
            r = self.repo.resolve(e.func, f.module, f)
            if isinstance(r, Ext) and r.path in ("copy.deepcopy", "copy.copy") and e.args:
                return self.is_rs(e.args[0], f, depth + 1)
            return any(t in self.returns_rs for t in self.targets.get(id(e), []) if isinstance(t, Func))
        return False

    def ctor_kind(self, call, f):
        """'seeded' / 'unseeded' / None for calls creating generators"""
        r = self.repo.resolve(call.func, f.module, f)
        if isinstance(r, Ext) and r.path in SEEDED_CTORS:
            args = list(call.args) + [k.value for k in call.keywords]
            if not args or all(isinstance(a, ast.Constant) and a.value is None for a in args):
                return "unseeded"
            for a in args:
                for n in ast.walk(a):
                    if isinstance(n, ast.Call):
                        rr = self.repo.resolve(n.func, f.module, f)
                        if isinstance(rr, Ext) and (rr.path.startswith("time.") or is_global_random(rr.path)
                                                    or rr.path in ("builtins.id", "builtins.hash", "os.getpid")) \
                                and rr.path not in SEEDED_CTORS:
                            return "unseeded"
            return "seeded"
        return None

    def _fix_rs_kinds(self):
        changed = True
        while changed:
            changed = False
            for f in self.funcs:
                for n in f.walk():
                    if isinstance(n, ast.Return) and n.value is not None and f not in self.returns_rs:
                        if self.is_rs(n.value, f):
                            self.returns_rs.add(f)
                            changed = True
                for c in self.calls[f]:
                    args = [a for a in c.args] + [k.value for k in c.keywords]
                    if not any(self.is_rs(a, f) for a in args):
                        continue
                    ts = [t for t in self.targets[id(c)] if isinstance(t, Func)]
                    if len(ts) > 40:
                        continue
                    for t in ts:
                        b, *_ = bind_args(c, t)
                        for p, a in b.items():
                            if p not in self.rs_params[t] and self.is_rs(a, f):
                                self.rs_params[t].add(p)
                                changed = True

    # ---------------------------------------------------------------- draws
    def mode(self, f):
        """how a generator reaches f: explicit / required / seeded / kwargs / none"""
        ps = self.rs_params[f]
        if f in self.decorated:
            return "seeded" if self.decorated[f] else "explicit"
        own = [p for p in ps if p in f.params or p in f.kwonly]
        if own:
            return "explicit" if all(p in f.defaults for p in own) else "required"
        if f.kwarg:
            return "kwargs"
        return "none"

    def passes(self, call, f, t):
        """'rs' generator passed, 'fwd' forwarded through **kwargs of f, 'none' omitted, 'bad' something else passed"""
        b, star, dstar, extra, xkw = bind_args(call, t)
        cand = [b[p] for p in self.rs_params[t] if p in b] + [xkw[k] for k in xkw if k == "random_state"]
        for a in cand:
            if self.is_rs(a, f):
                return "rs"
        if any(self.is_rs(a, f) for a in extra) or any(self.is_rs(v, f) for v in xkw.values()):
            return "rs"
        if cand:
            return "bad"
        for d in dstar:
            if isinstance(d, ast.Name):
                g = self.scope_func(f, d.id)
                if g is not None and g.kwarg == d.id and any(self.is_rs(v, g) for v in self._put_in_dict(g, d.id)):
                    return "rs"
                if g is not None and g.kwarg == d.id:
                    # a named random_state parameter is not in **kwargs
                    if "random_state" in self.rs_params[g] and "random_state" in (g.args + g.kwonly):
                        if self._put_in_dict(g, d.id):
                            return "rs"
                        continue
                    return "fwd"
                if g is not None and self._put_in_dict(g, d.id):
                    return "rs"
            elif isinstance(d, ast.Call) or isinstance(d, ast.Dict):
                for n in ast.walk(d):
                    if isinstance(n, ast.keyword) and n.arg == "random_state":
                        return "rs"
                    if isinstance(n, ast.Constant) and n.value == "random_state":
                        return "rs"
                    if isinstance(n, ast.Name):
                        g = self.scope_func(f, n.id)
                        if g is not None and g.kwarg == n.id and "random_state" not in g.args + g.kwonly:
                            return "fwd"
        if star and f.vararg and any(isinstance(a, ast.Starred) and isinstance(a.value, ast.Name) and a.value.id == f.vararg for a in call.args):
            pass
        return "none"

    def rs_args(self, c, f):
        out = [a for a in list(c.args) + [k.value for k in c.keywords if k.arg] if self.is_rs(a, f)]
        if not out:
            for k in c.keywords:
                if k.arg is None:
                    g = self.scope_func(f, k.value.id) if isinstance(k.value, ast.Name) else None
                    put = self._put_in_dict(g, k.value.id) if g is not None else []
                    out += put or [k.value]
        return out

    def _put_in_dict(self, g, name):
        """expressions stored under the key random_state of the local dictionary `name`"""
        out = []

        def inside(v):
            for k in ast.walk(v):
                if isinstance(k, ast.keyword) and k.arg == "random_state":
                    out.append(k.value)
                if isinstance(k, ast.Dict):
                    for kk, vv in zip(k.keys, k.values):
                        if isinstance(kk, ast.Constant) and kk.value == "random_state":
                            out.append(vv)
        for n in g.walk():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name \
                            and isinstance(t.slice, ast.Constant) and t.slice.value == "random_state":
                        out.append(n.value)
                    if isinstance(t, ast.Name) and t.id == name:
                        inside(n.value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault") \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                for x in list(n.args) + [k for k in n.keywords]:
                    inside(x)
                if n.func.attr == "setdefault" and len(n.args) > 1 and isinstance(n.args[0], ast.Constant) and n.args[0].value == "random_state":
                    out.append(n.args[1])
        return out

    def direct_draw(self, call, f):
        """x.method(...) on a generator"""
        fn = call.func
        if isinstance(fn, ast.Attribute) and self.is_rs(fn.value, f):
            # generators created locally from an explicit seed do not make the function need one
            v = fn.value
            if isinstance(v, ast.Name):
                g = self.scope_func(f, v.id)
                vals = self.repo.local_assigns(g).get(v.id, []) if g else []
                if v.id not in (self.rs_params[g] if g else ()) and vals and all(
                        isinstance(x, ast.Call) and self.ctor_kind(x, g) == "seeded" for x in vals):
                    return False
            if isinstance(v, ast.Attribute):
                return False     # object's own generator: no parameter is involved
            return True
        return False

    def _fix_draws(self):
        repo = self.repo
        self.draws = {}        # (f, C) -> witness : f consumes a generator received as parameter / kwargs
        self.nodes = [(f, C) for f in self.funcs for C in repo.contexts(f)]
        direct = {}
        for f in self.funcs:
            for c in self.calls[f]:
                if self.direct_draw(c, f):
                    direct.setdefault(f, ("direct", c))
                r = repo.resolve(c.func, f.module, f)
                if isinstance(r, Ext) and not r.path.startswith("builtins.") and r.path not in SEEDED_CTORS \
                        and r.path not in ("copy.copy", "copy.deepcopy"):
                    for a in list(c.args) + [k.value for k in c.keywords]:
                        if isinstance(a, ast.Name) and self.is_rs(a, f):
                            direct.setdefault(f, ("ext", c))
        rev = {}
        for (f, C) in self.nodes:
            if f in direct:
                self.draws[(f, C)] = direct[f]
            for c in self.calls[f]:
                for (t, k) in repo.ctx_targets(c, f, C):
                    if isinstance(t, Func):
                        rev.setdefault((t, k), []).append((f, C, c))
        work = list(self.draws)
        while work:
            t, k = work.pop()
            if self.mode(t) == "none":
                continue
            for (f, C, c) in rev.get((t, k), []):
                if (f, C) in self.draws:
                    continue
                p = self.passes(c, f, t)
                ok = p == "fwd"
                if p == "rs":
                    names = {n.id for a in self.rs_args(c, f) for n in ast.walk(a) if isinstance(n, ast.Name)}
                    ok = bool(names & self.rs_params[f]) or (f.kwarg in names if f.kwarg else False)
                    if not ok:
                        for nm in names:
                            g = self.scope_func(f, nm)
                            if g is not None and g is not f and nm in self.rs_params[g]:
                                ok = True
                            elif g is not None:
                                vals = repo.local_assigns(g).get(nm, [])
                                if any(v is not None and self.is_rs(v, g) and not (isinstance(v, ast.Call) and self.ctor_kind(v, g))
                                       and not isinstance(v, ast.Attribute) for v in vals):
                                    ok = True
                if ok:
                    self.draws[(f, C)] = ("call", c, (t, k))
                    work.append((f, C))

    def needs(self, t, k, call=None, f=None):
        """calling t without a generator leads to a draw that no seed controls (or to a missing argument)"""
        if (t, k) not in self.draws or self.mode(t) not in ("explicit", "kwargs", "required"):
            return False
        return call is None or not self.switched_off(t, call, f)

    def switched_off(self, t, call, f=None):
        """every draw of t is under `if <flag>` and the call leaves a flag at its constant false value"""
        guards = self.draw_guards(t)
        if not guards:
            return False
        b, star, dstar, _, _ = bind_args(call, t)
        if star or dstar:
            return False
        for g in guards:          # every draw must be switched off
            off = False
            for p in g:
                v = b.get(p, t.defaults.get(p))
                if p.startswith("none:"):
                    v = b.get(p[5:], t.defaults.get(p[5:]))
                    if v is not None and self.not_none(v, f):
                        off = True
                elif isinstance(v, ast.Constant) and not v.value:
                    off = True
            if not off:
                return False
        return True

    def not_none(self, v, f, depth=0):
        """the expression is never None"""
        if depth > 5 or v is None:
            return False
        if isinstance(v, ast.Constant):
            return v.value is not None
        if isinstance(v, (ast.Tuple, ast.List, ast.Dict, ast.ListComp, ast.BinOp, ast.Compare, ast.JoinedStr)):
            return True
        if isinstance(v, ast.Call):
            ts = self.targets.get(id(v), ())
            if f is None or not ts:
                return False
            for t in ts:
                if isinstance(t, Ext) and (t.path.startswith("numpy.") or t.path in ("builtins.tuple", "builtins.list", "builtins.sorted", "builtins.int", "builtins.range")):
                    continue
                if not isinstance(t, Func):
                    return False
                rets = [n for n in t.walk() if isinstance(n, ast.Return)]
                if not rets or not isinstance(t.body[-1], (ast.Return, ast.If, ast.Raise)):
                    return False
                if not isinstance(t.body[-1], ast.Return) or not all(self.not_none(r.value, t, depth + 1) for r in rets):
                    return False
            return True
        if isinstance(v, ast.Name) and f is not None:
            g = self.scope_func(f, v.id)
            if g is None or v.id in g.all_params:
                return False
            vals = self.repo.local_assigns(g).get(v.id, [])
            return bool(vals) and all(self.not_none(x, g, depth + 1) for x in vals)
        return False

    def draw_guards(self, t):
        """list (one per draw) of flag parameters that have to be true for the draw; None entry: unguarded"""
        if t in self._guards:
            return self._guards[t]
        out = []

        def visit(n, g):
            if isinstance(n, ast.Call):
                d = self.direct_draw(n, t)
                if not d:
                    d = any(isinstance(x, Func) and x is not t and any((x, c) in self.draws for c in self.repo.contexts(x))
                            for x in self.targets.get(id(n), ())) and bool(self.rs_args(n, t))
                if d:
                    out.append(g)
            if isinstance(n, ast.If):
                visit(n.test, g)
                extra = guard_flags(n.test, t)
                for s in n.body:
                    visit(s, g | extra)
                for s in n.orelse:
                    visit(s, g)
                return
            if isinstance(n, ast.IfExp):
                visit(n.test, g)
                extra = guard_flags(n.test, t)
                visit(n.body, g | extra)
                visit(n.orelse, g)
                return
            for ch in ast.iter_child_nodes(n):
                visit(ch, g)

        for s in t.body:
            visit(s, frozenset())
        if not out or any(not g for g in out):
            out = []
        self._guards[t] = out
        return out

    def witness(self, n, depth=0):
        w = self.draws.get(n)
        if w is None or depth > 6:
            return ""
        t = n[0]
        if w[0] in ("direct", "ext"):
            return f"{t.qual} draws at {t.module.rel}:{w[1].lineno} `{unparse(w[1], 60)}`"
        return f"{t.qual} -> " + self.witness(w[2], depth + 1)


def guard_flags(test, t):
    """parameters of t that must be true (`p`) or None (`none:p`) for the branch to be taken"""
    out = set()
    for x in conj(test):
        if isinstance(x, ast.Name) and x.id in t.all_params:
            out.add(x.id)
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.Is) and isinstance(x.left, ast.Name) \
                and x.left.id in t.all_params and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
            out.add("none:" + x.left.id)
    return out


def conj(test):
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        return [x for v in test.values for x in conj(v)]
    return [test]
