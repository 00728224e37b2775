"""P18 - termination budgets are counted exactly and combine as documented."""
import ast
from sa.model import *
from sa.util import *
from sa.paths import Walker
from sa.symb import Ctx, canon, enter
from sa.sympath import paths, rational, same_ratio, Poly, Engine

EXPLANATION = (
    "For every algorithm class all paths of one iteration (advance, with the hooks it runs on itself, and next) are followed and the events on them counted: the optimum is set, the termination criterion is updated once, the iteration counter is increased once "
    "and after the update, candidates are advanced once. Every other write of the iteration counter, the start time or the progress, and every other call of a criterion's update is located. "
    "For every termination criterion the paths of its update are enumerated symbolically: a budget must be reported as the exact fraction of the counter and the limit it was given, progress may never be negative, composed criteria must update every member exactly once without short circuits and combine them "
    "by the maximum (or the minimum if all have to be met), every criterion that is created must take part, and the criteria used by default must contain a finite budget of generations and of evaluations. A conversion of evaluations into generations has to count the first generation."
)
ASSUMPTIONS = ["limits and tolerances handed to a criterion are positive", "an algorithm that says in _advance that its iteration is not finished yet (returns False) is advanced again"]

COUNTERS = {"algorithm.n_gen": "generations", "algorithm.n_iter": "generations", "algorithm.evaluator.n_eval": "evaluations"}
KEYS = {"n_eval": "evaluations", "n_evals": "evaluations", "n_gen": "generations", "n_iter": "generations", "time": "seconds"}


def run(repo, rep):
    rep.rule("iteration-not-counted", "one iteration does not update the termination criterion and the counter exactly once")
    rep.rule("iteration-order", "the counter moves before the criterion is updated, or the criterion is updated before the optimum")
    rep.rule("advanced-wrongly", "one step does not advance the algorithm exactly once, or _advance hands back something that is taken for 'not finished'")
    rep.rule("counter-written-elsewhere", "the iteration counter, the start time or the progress is changed outside of its place")
    rep.rule("criterion-updated-elsewhere", "a termination criterion is updated outside of the iteration")
    rep.rule("budget-fraction", "the progress of a budget is not the used part of the limit that was given")
    rep.rule("negative-progress", "a progress can become negative, which stops the run with an error")
    rep.rule("composition", "a composed criterion leaves out or short-cuts a member, or combines the members differently than documented")
    rep.rule("criterion-unused", "a criterion that is created never takes part")
    rep.rule("default-without-budget", "the criterion used by default has no finite budget")
    rep.rule("budget-mixed", "a criterion gets another budget than the one that was given for it")
    rep.rule("stop-condition", "reaching the budget does not end the run")
    rep.rule("converted-budget", "a budget of evaluations is converted into a different number of generations")
    alg = repo.cls("Algorithm", required=False)
    term = repo.cls("Termination", required=False)
    if alg is None or term is None:
        raise AnchorMissing("Algorithm / Termination")
    iterations(repo, rep, alg, term)
    inventory(repo, rep, alg, term)
    contract(repo, rep, alg, term)
    for c in sorted(term.all_subclasses(), key=lambda c: c.id):
        criterion(repo, rep, c, term)
    names(repo, rep, term)
    defaults(repo, rep, term)
    budget_arguments(repo, rep, term)
    conversions(repo, rep)
    if not getattr(repo, "mini", False):
        for k, m in [("algorithm_classes", 30), ("criteria", 12), ("budget_fractions", 3), ("composed_criteria", 2), ("update_calls", 4), ("progress_values", 12), ("default_criteria", 2)]:
            rep.floor(k, m)


VALUES = (None, True, False)      # what _advance can return


# ------------------------------------------------------------------ iterations
class Steps(Walker):
    """state: (optimum set, updates, increments, advances, decided by _advance)"""

    def __init__(self, repo, alg, term, cls):
        super().__init__(repo)
        self.alg, self.term, self.cls = alg, term, cls
        self.bad = {}
        self.mark = {}

    def relevant(self, t, seen=None):
        """does the function (or what it calls on the same object) contain one of the events?"""
        if t in self.mark:
            return self.mark[t]
        self.mark[t] = False
        for n in t.walk():
            if self.kind(n, t):
                self.mark[t] = True
                return True
        for n in t.walk():
            if isinstance(n, ast.Call):
                u = self.own(n, t)
                if u is not None and self.relevant(u):
                    self.mark[t] = True
                    return True
        return self.mark[t]

    def own(self, call, f):
        """method of the same object that the call runs"""
        fn = call.func
        if not isinstance(fn, ast.Attribute):
            r = self.repo.resolve(fn, f.module, f)
            return r if isinstance(r, Func) and r.cls is None else None
        if isinstance(fn.value, ast.Name) and fn.value.id == self.repo.self_name(f):
            return self.cls.lookup(fn.attr)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            enc = self.repo.enclosing_class(f)
            return self.cls.lookup(fn.attr, after=enc) if enc is not None else None
        r = self.repo.resolve(fn, f.module, f)
        if isinstance(r, Func) and r.is_method and call.args and isinstance(call.args[0], ast.Name) and call.args[0].id == self.repo.self_name(f):
            return r
        return None

    def selfish(self, e, f):
        """expressions for the running algorithm: self, or the parameter of a helper"""
        return isinstance(e, ast.Name) and (e.id == self.repo.self_name(f) or f.cls is None and e.id in ("algorithm", "algo", "self", "obj"))

    def kind(self, n, f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == "_set_optimum" and self.selfish(n.func.value, f):
                return "opt"
            if n.func.attr == "update" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "termination" and self.selfish(n.func.value.value, f):
                return "update"
            if n.func.attr == "update" and isinstance(n.func.value, ast.Name):
                v = self.repo.local_assigns(f).get(n.func.value.id, [])
                if len(v) == 1 and isinstance(v[0], ast.Attribute) and v[0].attr == "termination" and self.selfish(v[0].value, f):
                    return "update"
            if n.func.attr in ("advance", "tell") and self.selfish(n.func.value, f):
                return "advance"
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr in ("n_iter", "n_gen") and self.selfish(t.value, f):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                        return "reset"
                    return "inc"
        return None

    def inline(self, call, ctx):
        if self.kind(call, ctx.f) in ("update",):
            return None
        t = self.own(call, ctx.f)
        if t is None or not self.relevant(t) or t is ctx.f or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in t.walk()):
            return None
        c = ctx
        while c is not None:
            if c.f is t:
                return None
            c = c.up
        m, *_ = bind_args(call, t)
        return Ctx(self.repo, t, m, ctx, self.cls)

    def event(self, node, ctx, s):
        o, u, i, a, d, z = s
        for n in ([node] if isinstance(node, ast.stmt) else [node]):
            k = self.kind(n, ctx.f)
            if k == "opt":
                o = 1
            elif k == "update":
                if not o:
                    self.bad["optimum"] = (n, ctx.f)
                u = min(u + 1, 3)
            elif k == "inc":
                if isinstance(n, ast.AugAssign) and not (isinstance(n.value, ast.Constant) and n.value.value == 1 and isinstance(n.op, ast.Add)) or isinstance(n, ast.Assign) and not self.plus_one(n):
                    self.bad["step"] = (n, ctx.f)
                if not u:
                    self.bad["order"] = (n, ctx.f)
                i = min(i + 1, 3)
            elif k == "advance" and self.count_advance:
                a = min(a + 1, 3)
            elif k == "reset" and u:
                self.bad["reset"] = (n, ctx.f)
        return (o, u, i, a, d, z)

    count_advance = False

    def plus_one(self, n):
        num, den = rational(n.value)
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                b = unparse(t.value)
                if any(num == Poly.atom(f"{b}.{k}") + Poly.const(1) and den == Poly.const(1) for k in ("n_iter", "n_gen")):
                    return True
        return False

    def branch(self, test, ctx, s, taken):
        o, u, i, a, d, z = s
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "hasattr" and test.args and isinstance(test.args[0], ast.Constant):
            return None if taken else s      # an attribute of a literal
        t = canon(test, ctx)
        if "_advance(" in t and "post_advance(" not in t or any(self.from_advance(x, ctx) for x in ast.walk(test) if isinstance(x, ast.Name)):
            left = [v for v in (None, True, False) if d >> VALUES.index(v) & 1 and self.truth_if(test, v, ctx) in (taken, "?")]
            d = sum(1 << VALUES.index(v) for v in left)
            if not d:
                return None
        if "is_initialized" in t:
            z = (1 if taken else 2) if not (isinstance(test, ast.UnaryOp)) else z
        return (o, u, i, a, d, z)

    def truth_if(self, t, v, ctx):
        """truth of the test if _advance has returned v"""
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            o = self.truth_if(t.operand, v, ctx)
            return o if o == "?" else not o
        if isinstance(t, ast.BoolOp):
            os = [self.truth_if(x, v, ctx) for x in t.values]
            stop = isinstance(t.op, ast.Or)
            return stop if stop in os else "?" if "?" in os else not stop
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and self.is_verdict(t.left, ctx):
            k = t.comparators[0].value
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                return v is k
            if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                return v is not k
            return "?"
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" and t.args:
            return self.truth_if(t.args[0], v, ctx)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)) and self.is_verdict(t.left, ctx):
            inside = any(isinstance(k, ast.Constant) and k.value is v for k in t.comparators[0].elts)
            return inside if isinstance(t.ops[0], ast.In) else not inside
        if self.is_verdict(t, ctx):
            return bool(v)
        if isinstance(t, ast.Name):
            vs = [x for x in self.repo.local_assigns(ctx.f).get(t.id, []) if x is not None]
            if len(vs) == 1 and not isinstance(vs[0], ast.Name):
                return self.truth_if(vs[0], v, ctx)
        return "?"

    def is_verdict(self, e, ctx):
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Attribute) and e.func.attr == "_advance"
        if isinstance(e, ast.Name):
            vs = [x for x in self.repo.local_assigns(ctx.f).get(e.id, []) if x is not None]
            if vs:
                return all(self.is_verdict(x, ctx) for x in vs)
            if ctx.up is not None and e.id in ctx.args:
                return self.is_verdict(ctx.args[e.id], ctx.up)
        return False

    def from_advance(self, x, ctx):
        for v in self.repo.local_assigns(ctx.f).get(x.id, []):
            for n in ast.walk(v) if v is not None else ():
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_advance":
                    return True
        if ctx.up is not None and x.id in ctx.args:
            return any(isinstance(y, ast.Name) and self.from_advance(y, ctx.up) or isinstance(y, ast.Attribute) and y.attr == "_advance" for y in ast.walk(ctx.args[x.id]))
        return False


def iterations(repo, rep, alg, term):
    seen = {}
    for c in sorted(alg.family(), key=lambda c: c.id):
        adv, nxt = c.lookup("advance"), c.lookup("next")
        if adv is None:
            continue
        rep.count("algorithm_classes")
        w = Steps(repo, alg, term, c)
        try:
            norm, exc = w.run(adv, Ctx(repo, adv, {}, None, c), {(0, 0, 0, 0, 7, 0)})
        except RuntimeError:
            rep.count("classes_too_large")
            continue
        rep.count("iteration_paths", len(norm))
        where = lambda k: (w.bad[k][1], w.bad[k][0])
        for k, rule, text in [("optimum", "iteration-order", "the termination criterion is updated before the optimum of the iteration is known"), ("order", "iteration-order", "the iteration counter is increased before the termination criterion is updated: the run stops one iteration early"),
                              ("step", "iteration-not-counted", "the iteration counter is not increased by one"), ("reset", "iteration-not-counted", "the iteration counter is reset after the criterion was updated")]:
            if k in w.bad:
                f, n = where(k)
                rep.add(rule, f"{f.id}:{k}", f"{f.module.rel}:{n.lineno} {f.qual}", text + f" (seen for {c.name})")
        for (o, u, i, a, d, z) in sorted(norm):
            if (u, i) == (1, 1) and d != 4 or (u, i) == (0, 0) and d == 4:
                continue
            f = culprit(w, c, adv)
            rep.add("iteration-not-counted", f"{f.id}:{u},{i}", f.loc, f"a path of an iteration of {c.name} updates the termination criterion {u} times and increases the counter {i} times")
        if nxt is not None and c.lookup("next") not in seen:
            seen[nxt] = 1
            w = Steps(repo, alg, term, c)
            w.count_advance = True
            w.inline = lambda call, ctx, w=w: None if w.kind(call, ctx.f) == "advance" or w.own(call, ctx.f) in (c.lookup("infill"), adv) else Steps.inline(w, call, ctx)
            norm, exc = w.run(nxt, Ctx(repo, nxt, {}, None, c), {(0, 0, 0, 0, 7, 0)})
            for s in sorted(norm):
                if s[3] != 1:
                    rep.add("advanced-wrongly", f"{nxt.id}:{s[3]}", nxt.loc, f"a path of one step advances the algorithm {s[3]} times")
        m = c.methods.get("_advance")
        if m is not None and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in m.walk()):
            rep.count("advance_hooks")
            for n in m.walk():
                if isinstance(n, ast.Return) and n.value is not None and not verdict(repo, n.value, m):
                    rep.add("advanced-wrongly", f"{m.id}:return", f"{m.module.rel}:{n.lineno} {m.qual}", f"_advance returns {unparse(n.value, 60)}: an empty or false value is taken for an iteration that is not finished")


def verdict(repo, v, m, depth=0):
    """None, True, False or the verdict of another _advance"""
    if isinstance(v, ast.Constant):
        return v.value is None or isinstance(v.value, bool)
    if isinstance(v, ast.Call):
        if isinstance(v.func, ast.Attribute) and v.func.attr.endswith("_advance"):
            return True
        ts = [t for t in repo.resolve_call(v, m, fallback=False) if isinstance(t, Func)]
        if isinstance(v.func, ast.Name) and v.func.id in ("bool", "any", "all"):
            return True
        if ts and depth < 3:
            return all(verdict(repo, n.value, t, depth + 1) for t in ts for n in t.walk() if isinstance(n, ast.Return) and n.value is not None)
        return True
    if isinstance(v, ast.IfExp):
        return verdict(repo, v.body, m, depth) and verdict(repo, v.orelse, m, depth)
    if isinstance(v, (ast.Compare, ast.UnaryOp, ast.BoolOp)):
        return True
    if isinstance(v, ast.Name):
        vs = repo.local_assigns(m).get(v.id, [])
        return bool(vs) and depth < 3 and all(w is not None and verdict(repo, w, m, depth + 1) for w in vs)
    return False


def culprit(w, c, adv):
    for nm in ("_advance", "_post_advance", "_initialize_advance"):
        m = c.lookup(nm)
        if m is not None and m.cls is c and w.relevant(m):
            return m
    return c.lookup("_post_advance") if c.methods.get("_post_advance") else adv


# ------------------------------------------------------------------ inventory
PLACES = {"n_iter": {"__init__", "_initialize", "advance", "_post_advance", "n_gen", "n_iter"}, "n_gen": {"__init__", "_initialize", "advance", "_post_advance", "n_gen", "n_iter"}, "start_time": {"__init__", "_initialize"}}


def owners(repo, e, f):
    sn = repo.self_name(f)
    if isinstance(e, ast.Name) and e.id == sn:
        c = repo.enclosing_class(f)
        return {c} if c is not None else set()
    return set(repo.typeset(e, f)) if isinstance(e, (ast.Name, ast.Attribute)) else set()


def inventory(repo, rep, alg, term):
    helpers = run_by(repo, alg, {"_post_advance", "_initialize", "advance"})
    own_updates = run_by(repo, term, {"_update", "update"})
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if isinstance(f.node, ast.Lambda):
            continue
        for n in f.walk():
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                for x in ast.walk(t):
                    if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)):
                        continue
                    if x.attr in PLACES:
                        own = owners(repo, x.value, f)
                        if any(alg in c.mro for c in own):
                            rep.count("counter_writes")
                            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None and f.name in ("__init__", "setup", "_setup"):
                                continue
                            if f in helpers or f.cls is not None and f.name in PLACES[x.attr] and alg in f.cls.mro and isinstance(x.value, ast.Name) and x.value.id == f.selfname:
                                continue
                            if dead(f, n):
                                continue
                            rep.add("counter-written-elsewhere", f"{f.id}:{x.attr}", f"{f.module.rel}:{n.lineno} {f.qual}", f"{x.attr} of an algorithm is changed outside of the iteration")
                    if x.attr == "perc" and any(term in c.mro for c in owners(repo, x.value, f)):
                        rep.count("progress_writes")
                        if not (f.cls is not None and term in f.cls.mro and f.name in ("__init__", "update")) and f not in own_updates:
                            rep.add("counter-written-elsewhere", f"{f.id}:perc", f"{f.module.rel}:{n.lineno} {f.qual}", "the progress of a termination criterion is set outside of its update")
                    if x.attr == "force_termination" and isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and not n.value.value and f.name != "__init__":
                        rep.add("stop-condition", f"{f.id}:force_termination", f"{f.module.rel}:{n.lineno} {f.qual}", "a termination that was forced is taken back")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update":
                ts = [t for t in repo.resolve_call(n, f, fallback=False) if isinstance(t, Func) and t.cls is not None and term in t.cls.mro]
                if not ts or private(repo, n.func.value, f, alg, term):
                    continue
                rep.count("update_calls")
                c = repo.enclosing_class(f)
                ok = c is not None and (alg in c.mro and (f.name == "_post_advance" or f in helpers) or term in c.mro and (f.name in ("_update", "update") or f in own_updates)) or f in helpers or f in own_updates
                if not ok:
                    rep.add("criterion-updated-elsewhere", f"{f.id}:update", f"{f.module.rel}:{n.lineno} {f.qual}", f"{unparse(n, 60)} updates a termination criterion outside of the iteration")


def private(repo, e, f, alg, term):
    """a criterion the object (which is neither an algorithm nor a criterion) or the function created for itself"""
    c = repo.enclosing_class(f)
    if isinstance(e, ast.Name):
        vs = repo.local_assigns(f).get(e.id, [])
        if len(vs) == 1 and isinstance(vs[0], ast.Attribute):
            return private(repo, vs[0], f, alg, term)
        return bool(vs) and all(isinstance(v, ast.Call) and isinstance(repo.resolve(v.func, f.module, f), Class) for v in vs)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == f.selfname and c is not None and alg not in c.mro and term not in c.mro:
        vs = [(g, v) for k in c.mro if isinstance(k, Class) for g, v in repo.attr_assigns(k).get(e.attr, [])]
        made = [v for g, v in vs if isinstance(v, ast.Call) and isinstance(repo.resolve(v.func, g.module, g), Class)]
        return bool(made) and all(v in made or isinstance(v, ast.Constant) for g, v in vs)
    return False


def dead(f, st):
    for n in f.walk():
        if isinstance(n, ast.If) and isinstance(n.test, ast.Call) and isinstance(n.test.func, ast.Name) and n.test.func.id == "hasattr" and n.test.args and isinstance(n.test.args[0], ast.Constant):
            if any(x is st for b in n.body for x in ast.walk(b)):
                return True
    return False


def run_by(repo, root, names):
    """helpers that are called by nobody but these methods of the family (transitively)"""
    callers = {}
    for f in repo.funcs.values():
        for n in f.walk():
            if isinstance(n, ast.Call):
                for t in repo.resolve_call(n, f, fallback=False):
                    if isinstance(t, Func):
                        callers.setdefault(t, set()).add(f)
    good = {f for f in repo.funcs.values() if f.cls is not None and root in f.cls.mro and f.name in names}
    base = set(good)
    changed = True
    while changed:
        changed = False
        for t, cs in callers.items():
            if t not in good and cs and cs <= good and t.name not in ("update", "_update", "advance", "next", "_advance", "_infill", "_initialize_advance", "_initialize_infill", "_setup", "_finalize"):
                good.add(t)
                changed = True
    for f in repo.funcs.values():
        g = f.parent
        while g is not None:
            if g in good:
                good.add(f)
            g = g.parent
    return good


# ------------------------------------------------------------------ the contract of the base class
def contract(repo, rep, alg, term):
    for c in sorted(term.family(), key=lambda c: c.id):
        m = c.methods.get("has_terminated")
        if m is not None:
            for p in paths(repo, m, c):
                if p.how == "return" and not finished(p.ret, m) and not via_super(p.ret, "has_terminated"):
                    rep.add("stop-condition", f"{m.id}", m.loc, f"has_terminated is {unparse(p.ret, 80)} and not that the progress has reached one")
        m = c.methods.get("do_continue")
        if m is not None:
            for p in paths(repo, m, c):
                if p.how == "return" and polarity(p.ret, m) is not False:
                    rep.add("stop-condition", f"{m.id}", m.loc, f"do_continue is {unparse(p.ret, 80)} and not the opposite of has_terminated")
        m = c.methods.get("update")
        if m is not None:
            rep.count("update_methods")
            for p in paths(repo, m, c):
                if p.how != "return":
                    continue
                perc = p.attrs.get(f"{m.selfname}.perc")
                forced = any(unparse(t, 400).endswith(".force_termination") and o for t, o in p.facts)
                if perc is None:
                    rep.add("stop-condition", f"{m.id}:perc", m.loc, "a path of update does not store the progress")
                elif forced and not (isinstance(perc, ast.Constant) and isinstance(perc.value, (int, float)) and perc.value >= 1):
                    rep.add("stop-condition", f"{m.id}:forced", m.loc, "a termination that was forced does not report that it is reached")
                elif not forced and not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("_update", "update") for n in ast.walk(perc)):
                    rep.add("stop-condition", f"{m.id}:progress", m.loc, f"the progress stored is {unparse(perc, 60)} and not the result of the criterion")
                elif not forced and isinstance(perc, ast.BinOp):
                    rep.add("stop-condition", f"{m.id}:progress", m.loc, f"the progress stored is {unparse(perc, 60)} and not the result of the criterion")
    for c in sorted(alg.family(), key=lambda c: c.id):
        m = c.methods.get("has_next")
        if m is not None:
            rep.count("has_next")
            for p in paths(repo, m, c):
                if p.how == "return":
                    pol = polarity(p.ret, m)
                    if pol is not False:
                        rep.add("stop-condition", m.id, m.loc, f"has_next is {unparse(p.ret, 80)} and not the opposite of has_terminated")


def via_super(e, nm):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == nm


def finished(e, m):
    """perc >= 1, also written the other way round"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and isinstance(e.operand, ast.Compare):
        flip = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt}
        o = flip.get(type(e.operand.ops[0]))
        e = ast.Compare(e.operand.left, [o()], e.operand.comparators) if o else e
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool":
        return finished(e.args[0], m)
    if not (isinstance(e, ast.Compare) and len(e.ops) == 1):
        return isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and any(finished(v, m) for v in e.values)
    a, o, b = e.left, e.ops[0], e.comparators[0]
    if isinstance(a, ast.Constant):
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if type(o) not in flip:
            return False
        a, o, b = b, flip[type(o)](), a
    return isinstance(a, ast.Attribute) and a.attr == "perc" and isinstance(o, ast.GtE) and isinstance(b, ast.Constant) and b.value == 1


def polarity(e, m):
    """True: terminated, False: not terminated, None: something else"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        p = polarity(e.operand, m)
        return None if p is None else not p
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        if finished(e, m):
            return True
        if finished(ast.UnaryOp(ast.Not(), e), m):
            return False
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return {"has_terminated": True, "do_continue": False, "has_next": False}.get(e.func.attr)
    return None


# ------------------------------------------------------------------ criteria
def limit(repo, c, attr):
    """what the constructor stores in the attribute, if it is the parameter (or a reading of it) itself"""
    vs = [v for g, v in repo.attr_assigns(c).get(attr, []) if g is not None]
    for v in vs:
        if v is None or isinstance(v, ast.BinOp):
            return False
    return bool(vs)


def counter_of(e):
    """the counter an expression is made of: 'generations', 'evaluations', 'seconds' """
    out = set()
    for n in ast.walk(e):
        d = dotted(n) if isinstance(n, ast.Attribute) else None
        if d is None:
            continue
        parts = d.split(".")
        if parts[-1] in ("n_gen", "n_iter") and len(parts) == 2:
            out.add("generations")
        if d.endswith("evaluator.n_eval"):
            out.add("evaluations")
        if parts[-1] == "start_time":
            out.add("seconds")
    return out


def clock(repo, alg):
    """the function that sets start_time"""
    out = set()
    for c in alg.family():
        for g, v in repo.attr_assigns(c).get("start_time", []):
            if isinstance(v, ast.Call) and g is not None:
                r = repo.resolve(v.func, g.module, g)
                out.add(r.path if isinstance(r, Ext) else unparse(v.func))
    return out


def arithmetic(e):
    """maximal arithmetic expressions"""
    if isinstance(e, (ast.BinOp, ast.UnaryOp)) and not isinstance(getattr(e, "op", None), (ast.Not, ast.BitAnd, ast.BitOr)):
        yield e
        return
    for ch in ast.iter_child_nodes(e):
        yield from arithmetic(ch)


def criterion(repo, rep, c, term):
    m = c.lookup("_update")
    if m is None or m.cls is term:
        return
    rep.count("criteria")
    own = m.cls is c
    members(repo, rep, c, m, term)
    if not own:
        return
    try:
        ps = paths(repo, m, c)
    except RuntimeError:
        rep.count("criteria_too_large")
        return
    kinds = set()
    for p in ps:
        if p.how != "return" or p.ret is None:
            continue
        rep.count("progress_values")
        for a in arithmetic(p.ret):
            k = counter_of(a)
            if k:
                kinds |= k
                fraction(repo, rep, c, m, a, k, p)
                capped(rep, c, m, p.ret, a)
        neg = sign(repo, p.ret, p, c, m)
        if neg[0] == "neg":
            rep.add("negative-progress", f"{c.id}", m.loc, f"the progress {unparse(p.ret, 90)} can be negative: {neg[1]}")
    if kinds:
        for p in ps:
            if p.how == "return" and isinstance(p.ret, ast.Constant) and isinstance(p.ret.value, (int, float)):
                guard(repo, rep, c, m, p, kinds)


def fraction(repo, rep, c, m, a, k, p):
    rep.count("budget_fractions")
    num, den = rational(a)
    text = unparse(a, 90)
    limits = []
    for at in num.atoms() | den.atoms():
        if at.startswith((m.selfname or "self") + ".") and at.count(".") == 1 and "(" not in at:
            limits.append(at.split(".")[1])
    if len(limits) != 1:
        rep.count("fractions_undecided")
        return
    L = Poly.atom(f"{m.selfname}.{limits[0]}")
    if len(k) > 1:
        rep.add("budget-fraction", f"{c.id}.{limits[0]}", m.loc, f"{text} mixes several counters")
        return
    kind = next(iter(k))
    rest = [at for at in num.atoms() | den.atoms() if at != f"{m.selfname}.{limits[0]}"]
    if kind == "seconds":
        start = [at for at in rest if at.endswith(".start_time")]
        now = [at for at in rest if not at.endswith(".start_time")]
        ok = len(start) == 1 and len(now) == 1 and same_ratio((num, den), (Poly.atom(now[0]) - Poly.atom(start[0]), L))
        if ok:
            alg = repo.cls("Algorithm")
            node = [n for n in ast.walk(a) if isinstance(n, ast.Call) and unparse(n, 300) == now[0]]
            if node:
                r = repo.resolve(node[0].func, m.module, m)
                ck = clock(repo, alg)
                if isinstance(r, Ext) and ck and r.path not in ck:
                    rep.add("budget-fraction", f"{c.id}.clock", m.loc, f"the elapsed time is measured with {r.path}, the start with {', '.join(sorted(ck))}")
    else:
        ok = len(rest) == 1 and same_ratio((num, den), (Poly.atom(rest[0]), L))
    if not ok:
        rep.add("budget-fraction", f"{c.id}.{limits[0]}", m.loc, f"the progress {text} is not the used part of the limit: the run ends earlier or later than the budget")
    if not limit(repo, c, limits[0]):
        rep.add("budget-fraction", f"{c.id}.{limits[0]}:limit", m.loc, f"the limit {limits[0]} is not the one that was handed to the constructor")


def capped(rep, c, m, ret, a):
    """a progress that never gets to one"""
    for n in ast.walk(ret):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if nm in ("min", "minimum", "clip") and any(x is a for y in n.args for x in ast.walk(y)):
                low = [k.value for y in n.args[0 if nm != "clip" else 2:] for k in [y] if isinstance(k, ast.Constant) and isinstance(k.value, (int, float)) and k.value < 1]
                if low:
                    rep.add("budget-fraction", f"{c.id}:cap", m.loc, f"the progress {unparse(n, 80)} never reaches one: the run does not end when the budget is used up")
            if nm in ("floor", "round", "rint", "around") and any(x is a for y in n.args for x in ast.walk(y)):
                rep.add("budget-fraction", f"{c.id}:rounded", m.loc, f"the progress {unparse(n, 80)} is rounded: the run ends earlier or later than the budget")


def guard(repo, rep, c, m, p, kinds):
    """constant progress depending on comparisons of the counter with the limit"""
    v = p.ret.value
    for t, o in p.facts:
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            continue
        sides = [counter_of(t.left), counter_of(t.comparators[0])]
        if not (sides[0] or sides[1]):
            continue
        op = type(t.ops[0])
        if sides[1] and not sides[0]:
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
        reached = {(ast.GtE, True): ">=", (ast.Gt, True): ">", (ast.Lt, False): ">=", (ast.LtE, False): ">", (ast.GtE, False): "<", (ast.Gt, False): "<=", (ast.Lt, True): "<", (ast.LtE, True): "<="}.get((op, o))
        if reached in (">=", ">") and v < 1 or reached == "<" and v >= 1 or reached == "<=":
            rep.add("budget-fraction", f"{c.id}:guard", m.loc, f"the progress is {v} where {unparse(t, 60)} is {o}: the budget is missed by one")


# ------------------------------------------------------------------ signs
def sign(repo, e, p, c, m, depth=0):
    """('pos'|'nonneg'|'opaque'|'neg', reason)"""
    if depth > 25:
        return ("opaque", "")
    S = lambda x: sign(repo, x, p, c, m, depth + 1)
    ok = ("pos", "nonneg")
    f = fact(e, p, S)
    if f:
        return f
    if isinstance(e, ast.Constant):
        if isinstance(e.value, bool):
            return ("nonneg", "")
        if isinstance(e.value, (int, float)):
            return ("pos" if e.value > 0 else "nonneg" if e.value == 0 else "neg", f"{e.value}")
        return ("opaque", "")
    if isinstance(e, (ast.Compare, ast.BoolOp)):
        return ("nonneg", "")
    if isinstance(e, ast.Attribute):
        d = dotted(e) or ""
        if e.attr == "perc" or d.split(".")[-1] in ("n_gen", "n_iter", "n_eval") and len(d.split(".")) >= 2:
            return ("nonneg", "")
        return ("opaque", d)
    if isinstance(e, ast.Call):
        fn = dotted(e.func) or ""
        last = e.func.attr if isinstance(e.func, ast.Attribute) else fn
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        if last in ("update", "_update", "has_terminated"):
            return ("nonneg", "")
        if last in ("max", "maximum", "amax") and (len(args) >= 1) and not (isinstance(e.func, ast.Attribute) and dotted(e.func.value) not in ("np", "numpy")):
            xs = args if len(args) > 1 else (args[0].elts if isinstance(args[0], (ast.List, ast.Tuple)) else None)
            if xs is None:
                return coll(repo, args[0], p, c, m, S)
            ss = [S(x) for x in xs] or [("opaque", "")]
            if any(s[0] == "pos" for s in ss):
                return ("pos", "")
            if any(s[0] == "nonneg" for s in ss):
                return ("nonneg", "")
            return next((s for s in ss if s[0] == "neg"), ss[0])
        if last in ("min", "minimum", "amin") and len(args) >= 1 and not (isinstance(e.func, ast.Attribute) and dotted(e.func.value) not in ("np", "numpy")):
            xs = args if len(args) > 1 else (args[0].elts if isinstance(args[0], (ast.List, ast.Tuple)) else None)
            if xs is None:
                return coll(repo, args[0], p, c, m, S)
            ss = [S(x) for x in xs] or [("opaque", "")]
            bad = next((s for s in ss if s[0] == "neg"), None)
            if bad:
                return bad
            return ("nonneg", "") if all(s[0] in ok for s in ss) else ("opaque", "")
        if last == "clip" and len(args) >= 2:
            lo = args[1] if dotted(e.func.value) in ("np", "numpy") else args[0]
            return S(lo)
        if last in ("abs", "fabs", "len", "sum_of_squares", "absolute", "sqrt", "square", "norm", "exp"):
            return ("nonneg" if last != "exp" else "pos", "")
        if last in ("float", "int", "bool", "round", "item", "asarray", "array", "atleast_1d") or isinstance(e.func, ast.Name) and e.func.id in ("float", "int", "bool"):
            return S(args[0] if args else e.func.value) if (args or isinstance(e.func, ast.Attribute)) else ("opaque", "")
        if isinstance(e.func, ast.Attribute) and last in ("min", "max", "mean", "sum") and not args:
            return S(e.func.value)
        if isinstance(e.func, ast.Attribute) and last == "get" and len(args) == 1 and isinstance(args[0], ast.Constant) and args[0].value in ("CV", "cv"):
            return ("nonneg", "")
        return ("opaque", unparse(e, 50))
    if isinstance(e, ast.IfExp):
        a, b = S(e.body), S(e.orelse)
        for s in (a, b):
            if s[0] == "neg":
                return s
        return ("nonneg", "") if a[0] in ok and b[0] in ok else ("opaque", "")
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        s = S(e.operand)
        return ("neg", unparse(e, 60)) if s[0] in ("opaque", "pos") else ("opaque", "")
    if isinstance(e, ast.BinOp):
        k = counter_of(e)
        if k and isinstance(e.op, ast.Div):
            num, den = rational(e)
            ats = num.atoms() | den.atoms()
            if k == {"seconds"} or len([a for a in ats if not a.startswith((m.selfname or "self") + ".")]) == 1:
                return ("nonneg", "")     # the exact form is checked by the rule on fractions
        a, b = S(e.left), S(e.right)
        if isinstance(e.op, ast.Add):
            if a[0] in ok and b[0] in ok:
                return ("pos" if "pos" in (a[0], b[0]) else "nonneg", "")
            return a if a[0] == "neg" else b if b[0] == "neg" else ("opaque", "")
        if isinstance(e.op, ast.Mult):
            if a[0] in ok and b[0] in ok:
                return ("pos" if a[0] == b[0] == "pos" else "nonneg", "")
            if unparse(e.left, 300) == unparse(e.right, 300):
                return ("nonneg", "")
            return a if a[0] == "neg" else b if b[0] == "neg" else ("opaque", "")
        if isinstance(e.op, ast.Div):
            if a[0] in ok and b[0] in ok:
                return (a[0], "")
            return ("neg", f"the signs of {unparse(e.left, 40)} and {unparse(e.right, 40)} are not known")
        if isinstance(e.op, ast.Sub):
            if isinstance(e.right, ast.Constant) and isinstance(e.right.value, (int, float)) and e.right.value <= 0 and a[0] in ok:
                return a
            return ("neg", f"{unparse(e, 60)} is a difference of unknown sign")
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value in (2, 4, 0.5):
            return ("nonneg", "")
        return ("opaque", "")
    return ("opaque", "")


def coll(repo, e, p, c, m, S):
    """smallest or largest element of a collection"""
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return S(e.elt)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == m.selfname:
        ss = []
        for k in [x for x in c.mro if isinstance(x, Class)]:
            for g in k.methods.values():
                for q in paths(repo, g, c) if g.name == m.name else ():
                    for v in q.effects:
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and unparse(v.func.value) == unparse(e) and v.args:
                            ss.append(S(v.args[0]))
        if ss and all(s[0] in ("pos", "nonneg") for s in ss):
            return ("nonneg", "")
        return next((s for s in ss if s[0] == "neg"), ("opaque", ""))
    return ("opaque", unparse(e, 40))


def fact(e, p, S):
    """what the tests on the path say about the sign of the expression"""
    d = ast.dump(e)
    diff = isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub)
    for t, o in p.facts:
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            continue
        a, b, op = t.left, t.comparators[0], type(t.ops[0])
        rel = {(ast.Gt, True): ">", (ast.GtE, True): ">=", (ast.Lt, True): "<", (ast.LtE, True): "<=", (ast.Gt, False): "<=", (ast.GtE, False): "<", (ast.Lt, False): ">=", (ast.LtE, False): ">"}.get((op, o))
        if rel is None:
            continue
        if rel in ("<", "<="):
            a, b, rel = b, a, {"<": ">", "<=": ">="}[rel]
        # now a rel b with rel in > >=
        if diff and ast.dump(e.left) == ast.dump(a) and ast.dump(e.right) == ast.dump(b):
            return ("pos" if rel == ">" else "nonneg", "")
        if ast.dump(a) == d and ast.dump(b) != d:
            s = ("pos", "") if isinstance(b, ast.Constant) and isinstance(b.value, (int, float)) and b.value > 0 else ("nonneg", "") if isinstance(b, ast.Constant) and b.value == 0 else known(b, p, {d})
            if s[0] in ("pos", "nonneg"):
                return ("pos" if rel == ">" or s[0] == "pos" else "nonneg", "")
    return None


def known(b, p, seen):
    d = ast.dump(b)
    if d in seen:
        return ("opaque", "")
    for t, o in p.facts:
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            continue
        a, x, op = t.left, t.comparators[0], type(t.ops[0])
        rel = {(ast.Gt, True): ">", (ast.GtE, True): ">=", (ast.Lt, False): ">=", (ast.LtE, False): ">"}.get((op, o))
        if rel and ast.dump(a) == d:
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and x.value >= 0:
                return ("pos" if rel == ">" or x.value > 0 else "nonneg", "")
            return known(x, p, seen | {d})
    return ("opaque", "")


# ------------------------------------------------------------------ composition
def members(repo, rep, c, m, term):
    """criteria held by the class, and how their progress is combined"""
    todo, fs = [m], []
    while todo:                                    # the update and its own helpers
        g = todo.pop()
        if g in fs or len(fs) > 6:
            continue
        fs.append(g)
        for n in g.walk():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == repo.self_name(g):
                t = c.lookup(n.func.attr)
                if t is not None and t.name not in ("update", "_update"):
                    todo.append(t)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                todo += [t for t in repo.resolve_call(n, g, fallback=False) if isinstance(t, Func) and t.cls is None and t.module is g.module]
    calls = [(g, n) for g in fs for n in g.walk() if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and (n.args or n.keywords)]
    if not calls:
        return
    own = m.cls is c
    touched = set()
    for g, n in calls:
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == repo.self_name(g):
                touched.add(x.attr)
    if own:
        rep.count("composed_criteria")
        shortcuts(repo, rep, c, m, fs, calls)
        direction(repo, rep, c, m, fs, calls)
    # everything that was created takes part
    listed = set(touched)
    for a in touched:
        for g, v in repo.attr_assigns(c).get(a, []):
            if v is not None:
                listed |= {x.attr for x in ast.walk(v) if isinstance(x, ast.Attribute)}
                listed |= {y.attr for x in ast.walk(v) if isinstance(x, ast.Name) and g is not None for w in repo.local_assigns(g).get(x.id, []) if w is not None for y in ast.walk(w) if isinstance(y, ast.Attribute)}
            for h in [k for k in c.mro if isinstance(k, Class)]:
                for mm in h.methods.values():
                    for n in mm.walk():
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "add", "insert") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == a:
                            listed |= {x.attr for y in n.args for x in ast.walk(y) if isinstance(x, ast.Attribute)}
    for a, vs in sorted(repo.attr_assigns(c).items()):
        for g, v in vs:
            if isinstance(v, ast.Call) and g is not None:
                k = repo.resolve(v.func, g.module, g)
                if isinstance(k, Class) and term in k.mro:
                    rep.count("member_criteria")
                    if a not in listed:
                        rep.add("criterion-unused", f"{c.id}.{a}", f"{g.module.rel}:{v.lineno} {g.qual}", f"the criterion {a} is created but never updated: its budget has no effect")
            elif isinstance(v, ast.Name) and g is not None and g.name == "__init__" and v.id in g.all_params and own_param_criterion(repo, c, g, v.id, term):
                rep.count("member_criteria")
                if a not in listed:
                    rep.add("criterion-unused", f"{c.id}.{a}", f"{g.module.rel}:{v.lineno} {g.qual}", f"the criterion {a} handed in is never updated: it has no effect")


def own_param_criterion(repo, c, init, p, term):
    """subclasses or callers hand a criterion in under this parameter"""
    for k in c.family():
        i = k.methods.get("__init__")
        for n in i.walk() if i is not None else ():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                for t in repo.resolve_call(n, i, fallback=False):
                    if t is init:
                        v = bind_args(n, init)[0].get(p)
                        if isinstance(v, ast.Name):
                            ws = [w for w in repo.local_assigns(i).get(v.id, []) if w is not None]
                        else:
                            ws = [v] if v is not None else []
                        for w in ws:
                            r = repo.resolve(w.func, i.module, i) if isinstance(w, ast.Call) else None
                            if isinstance(r, Class) and term in r.mro:
                                return True
    return False


def shortcuts(repo, rep, c, m, fs, calls):
    for g in fs:
        par = parents_of(g)
        for h, n in calls:
            if h is not g:
                continue
            x, up = n, par.get(n)
            while up is not None and not isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef)):
                why = None
                if isinstance(up, ast.BoolOp) and up.values and not (x is up.values[0]):
                    why = "it is only updated if the test before it leaves that open"
                if isinstance(up, ast.IfExp) and x is not up.test:
                    why = "it is only updated in one case"
                if isinstance(up, ast.GeneratorExp) and lazy(par, up):
                    why = "the members after the deciding one are skipped"
                if isinstance(up, ast.comprehension) and up.ifs or isinstance(up, (ast.ListComp, ast.GeneratorExp)) and any(q.ifs for q in up.generators):
                    why = "members are filtered"
                if isinstance(up, (ast.For, ast.While)) and any(leaves(s) for s in up.body):
                    why = "the loop ends early"
                if isinstance(up, (ast.For, ast.While)) and any(isinstance(y, ast.Continue) and y.lineno < n.lineno for s in up.body for y in ast.walk(s)):
                    why = "members are skipped"
                if isinstance(up, (ast.ListComp, ast.GeneratorExp)) and any(sliced(q.iter) for q in up.generators) or isinstance(up, ast.For) and sliced(up.iter):
                    why = "only some members are taken"
                if isinstance(up, ast.If) and x is not up.test and not recovers(up, x, n):
                    why = "it is only updated under a condition"
                if why:
                    rep.add("composition", f"{c.id}:shortcut", f"{g.module.rel}:{n.lineno} {g.qual}", f"{c.name} does not update every criterion in every iteration: {why}")
                    break
                x, up = up, par.get(up)
        # a return before the update
        for h, n in calls:
            if h is g:
                for st in g.body:
                    if st.lineno >= stmt_of(par, n).lineno:
                        break
                    if any(isinstance(y, ast.Return) for y in ast.walk(st)):
                        rep.add("composition", f"{c.id}:shortcut", f"{g.module.rel}:{st.lineno} {g.qual}", f"{c.name} returns before its criteria are updated")


def recovers(up, x, n):
    other = up.orelse if any(x is s for s in up.body) else up.body
    return any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "update" for s in other for y in ast.walk(s))


def stmt_of(par, n):
    while n in par and not isinstance(n, ast.stmt):
        n = par[n]
    return n


def leaves(s):
    """break or return inside a loop body"""
    if isinstance(s, (ast.Break, ast.Return)):
        return True
    if isinstance(s, (ast.For, ast.While)):
        return any(isinstance(y, ast.Return) for y in ast.walk(s))
    return any(leaves(x) for x in ast.iter_child_nodes(s) if isinstance(x, ast.stmt))


def sliced(e):
    return isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and not (e.slice.lower is None and e.slice.upper is None)


def lazy(par, g):
    up = par.get(g)
    return isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in ("any", "all", "next")


def parents_of(g):
    par = {}
    for n in ast.walk(g.node):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n
    return par


def direction(repo, rep, c, m, fs, calls):
    kinds = set()
    multi = False
    for g in fs:
        par = parents_of(g)
        for h, n in calls:
            if h is not g:
                continue
            if any(isinstance(u, (ast.ListComp, ast.GeneratorExp, ast.For, ast.While)) for u in ups(par, n)):
                multi = True
        for n in g.walk():
            if isinstance(n, ast.Return) and n.value is not None:
                k = fold(repo, n.value, g, calls, c)
                if k:
                    kinds.add(k)
    if len(calls) > 1:
        multi = True
    for g in fs:
        for n in g.walk():
            nm = (dotted(n.func) or "").split(".")[-1] if isinstance(n, ast.Call) else ""
            if nm not in ("max", "amax", "nanmax", "min", "amin", "nanmin"):
                continue
            for x in (x for a in n.args for x in ast.walk(a)):
                part = sliced(x) and isinstance(x.value, ast.Name) and carries(repo, x.value, g, calls, 0)
                part = part or isinstance(x, (ast.ListComp, ast.GeneratorExp)) and any(q.ifs and carries(repo, q.iter, g, calls, 0) for q in x.generators)
                if part:
                    rep.add("composition", f"{c.id}:left-out", f"{g.module.rel}:{n.lineno} {g.qual}", f"{c.name} combines only some of its criteria: {unparse(n, 80)}")
    if not multi:
        window(repo, rep, c, m, fs)
        return
    want = "min" if "All" in c.name else "max"
    kinds.discard("none")
    if not kinds:
        rep.count("combinations_undecided")
    for k in sorted(kinds):
        rep.count("combinations")
        if k != want:
            rep.add("composition", f"{c.id}:combination", m.loc, f"{c.name} combines its criteria by the {k}: it ends the run {'before all of them are' if want == 'min' else 'not as soon as one of them is'} met")


def window(repo, rep, c, m, fs):
    """the progress of one criterion over a sliding window: met only if it was met all the time"""
    ws = {a for a, vs in repo.attr_assigns(c).items() for g, v in vs if isinstance(v, ast.Call) and g is not None and isinstance(repo.resolve(v.func, g.module, g), Class) and repo.resolve(v.func, g.module, g).name == "SlidingWindow"}
    if not ws:
        return
    rep.count("windows")
    for a in ws:
        for g, v in repo.attr_assigns(c)[a]:
            if isinstance(v, ast.Call):
                b = bind_args(v, repo.resolve(v.func, g.module, g).lookup("__init__"))[0].get("size")
                if not (isinstance(b, ast.Name) and b.id in g.all_params or isinstance(b, ast.Attribute)):
                    rep.add("composition", f"{c.id}:window", f"{g.module.rel}:{v.lineno} {g.qual}", f"the window is not as long as the period that was given ({unparse(b, 40) if b is not None else 'unlimited'})")
    for g in fs:
        for n in g.walk():
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                args = n.args or ([n.func.value] if isinstance(n.func, ast.Attribute) else [])
                if nm in ("max", "min", "mean", "median", "sum", "any", "all", "amax", "amin") and any(isinstance(x, ast.Attribute) and x.attr in ws for y in args for x in ast.walk(y)):
                    rep.count("combinations")
                    if nm not in ("min", "amin", "all"):
                        rep.add("composition", f"{c.id}:combination", m.loc, f"{c.name} takes the {nm} over its window: it ends the run although the criterion was not met during the whole period")
                    if any(sliced(x) for y in args for x in ast.walk(y)):
                        rep.add("composition", f"{c.id}:window", m.loc, f"{c.name} looks at a part of its window only")


def ups(par, n):
    while n in par:
        n = par[n]
        yield n


def fold(repo, e, g, calls, c, depth=0):
    """'max', 'min', 'sum', ... of the progress of several criteria, or None"""
    if depth > 8 or e is None:
        return None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if nm in ("max", "amax", "nanmax", "maximum"):
            return "max" if carries(repo, e, g, calls, depth) else None
        if nm in ("min", "amin", "nanmin", "minimum"):
            return "min" if carries(repo, e, g, calls, depth) else None
        if nm in ("sum", "mean", "prod", "median", "average"):
            return nm if carries(repo, e, g, calls, depth) else None
        if nm == "reduce" and e.args:
            f = (dotted(e.args[0]) or "").split(".")[-1]
            return f if f in ("max", "min") else None
        if nm in ("float", "int") and e.args:
            return fold(repo, e.args[0], g, calls, c, depth + 1)
        ts = [t for t in repo.resolve_call(e, g, fallback=False) if isinstance(t, Func)]
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == repo.self_name(g):
            t = c.lookup(e.func.attr)
            ts = [t] if t is not None else ts
        for t in ts:
            if t.name in ("update", "_update"):
                return None
            for n in t.walk():
                if isinstance(n, ast.Return) and n.value is not None:
                    k = fold(repo, n.value, t, calls, c, depth + 1)
                    if k:
                        return k
        return None
    if isinstance(e, ast.Name):
        ks = {fold(repo, v, g, calls, c, depth + 1) for v in repo.local_assigns(g).get(e.id, []) if v is not None and not (isinstance(v, ast.Name) and v.id == e.id)}
        for n in g.walk():
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1:
                for s in n.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                        a, o, b = n.test.left, type(n.test.ops[0]), n.test.comparators[0]
                        if isinstance(a, ast.Name) and a.id == e.id:
                            a, b = b, a
                            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(o, o)
                        if isinstance(b, ast.Name) and b.id == e.id and o in (ast.Gt, ast.GtE):
                            ks.add("max")
                        if isinstance(b, ast.Name) and b.id == e.id and o in (ast.Lt, ast.LtE):
                            ks.add("min")
        ks.discard(None)
        return ks.pop() if len(ks) == 1 else None
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "sorted" and isinstance(e.slice, (ast.Constant, ast.UnaryOp)):
        rev = any(k.arg == "reverse" and isinstance(k.value, ast.Constant) and k.value.value for k in e.value.keywords)
        last = isinstance(e.slice, ast.UnaryOp)
        return "max" if last != rev else "min"
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult, ast.Div)):
        return "sum" if carries(repo, e, g, calls, depth) and isinstance(e.op, ast.Add) else fold(repo, e.left, g, calls, c, depth + 1)
    return None


def carries(repo, e, g, calls, depth):
    for x in ast.walk(e):
        if any(x is n for h, n in calls):
            return True
        if isinstance(x, ast.Name) and depth < 6:
            for v in repo.local_assigns(g).get(x.id, []):
                if v is not None and not any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(v)) and carries(repo, v, g, calls, depth + 1):
                    return True
            # filled in a loop
            for n in g.walk():
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name) and n.func.value.id == x.id and n.args:
                    if any(y is q for y in ast.walk(n.args[0]) for h, q in calls) or any(isinstance(y, ast.Name) and any(v is q for v in repo.local_assigns(g).get(y.id, []) for h, q in calls) for y in ast.walk(n.args[0])):
                        return True
    return False


# ------------------------------------------------------------------ names, defaults, conversions
def names(repo, rep, term):
    for f in repo.funcs.values():
        if f.name != "get_termination":
            continue
        for n in f.walk():
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value in KEYS:
                        r = repo.resolve(v, f.module, f)
                        if isinstance(r, Class) and term in r.mro:
                            rep.count("named_budgets")
                            u = r.lookup("_update")
                            kinds = set()
                            for p in paths(repo, u, r):
                                if p.how == "return":
                                    kinds |= counter_of(p.ret)
                                    for t, o in p.facts:
                                        kinds |= counter_of(t)
                            if KEYS[k.value] not in kinds:
                                rep.add("budget-fraction", f"{f.id}:{k.value}", f"{f.module.rel}:{v.lineno} {f.qual}", f"the budget named {k.value} creates a criterion that does not count {KEYS[k.value]}")


def budgets(repo, c, term, depth=0):
    """{kind: finite} of the criteria that can end a run through this class on their own"""
    out = {}
    i = c.lookup("__init__")
    u = c.lookup("_update")
    if i is None or u is None or depth > 4:
        return out
    todo, seen = [(i, {p: d for p, d in i.defaults.items()})], set()
    while todo:
        g, env = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        for n in g.walk():
            if not isinstance(n, ast.Call):
                continue
            r = repo.resolve(n.func, g.module, g)
            if isinstance(r, Class) and term in r.mro and r is not c:
                for kind in kinds_of(repo, r):
                    h = r.lookup("__init__")
                    b = bind_args(n, h)[0] if h is not None else {}
                    v = next(iter(b.values()), None) if b else (next(iter(h.defaults.values()), None) if h is not None else None)
                    if isinstance(v, ast.Name) and v.id in env:
                        v = env[v.id]
                    out[kind] = out.get(kind, False) or finite(v)
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                for t in repo.resolve_call(n, g, fallback=False):
                    if isinstance(t, Func) and t not in seen:
                        b = bind_args(n, t)[0]
                        e2 = dict(t.defaults)
                        for k, v in b.items():
                            e2[k] = env.get(v.id, v) if isinstance(v, ast.Name) else v
                        todo.append((t, e2))
    return out


def budget_arguments(repo, rep, term):
    """a constructor that has a budget under the name that the criterion it builds uses hands over that budget"""
    for c in sorted(term.all_subclasses() | {term}, key=lambda c: c.id):
        for g in {m for k in c.mro if isinstance(k, Class) for m in [k.lookup("__init__")] if m is not None}:
            for n in g.walk():
                if not isinstance(n, ast.Call):
                    continue
                r = repo.resolve(n.func, g.module, g)
                hs = [r.lookup("__init__")] if isinstance(r, Class) and term in r.mro else [t for t in repo.resolve_call(n, g, fallback=False) if isinstance(t, Func) and t.name == "__init__"] if isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" else []
                for h in hs:
                    if h is None:
                        continue
                    for q, v in bind_args(n, h)[0].items():
                        if q in g.all_params and q.startswith("n_max") and isinstance(v, ast.expr):
                            rep.count("budgets_handed_over")
                            if not derives(repo, v, q, g):
                                rep.add("budget-mixed", f"{g.id}:{q}", f"{g.module.rel}:{n.lineno} {g.qual}", f"{unparse(v, 50)} is handed over as {q} although a budget of that name was given")


def derives(repo, v, q, g, depth=0):
    for x in ast.walk(v):
        if isinstance(x, ast.Name):
            if x.id == q or depth < 5 and any(w is not None and derives(repo, w, q, g, depth + 1) for w in repo.local_assigns(g).get(x.id, []) if x.id not in g.all_params):
                return True
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == repo.self_name(g) and (x.attr == q or depth < 5):
            c = repo.enclosing_class(g)
            if x.attr == q or c is not None and any(w is not None and w is not v and derives(repo, w, q, h, depth + 1) for h, w in repo.attr_assigns(c).get(x.attr, []) if h is g):
                return True
    return False


def finite(v):
    if isinstance(v, ast.Constant):
        return isinstance(v.value, (int, float)) and not isinstance(v.value, bool) and v.value > 0
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "float" and v.args and isinstance(v.args[0], ast.Constant):
        return "inf" not in str(v.args[0].value)
    if isinstance(v, ast.Attribute) and v.attr == "inf":
        return False
    return v is not None


def kinds_of(repo, r):
    u = r.lookup("_update")
    out = set()
    try:
        for p in paths(repo, u, r) if u is not None else ():
            if p.how == "return":
                out |= counter_of(p.ret)
                for t, o in p.facts:
                    out |= counter_of(t)
    except RuntimeError:
        pass
    return out


def defaults(repo, rep, term):
    cs = {}
    for f in repo.funcs.values():
        if f.name == "default_termination":
            for n in f.walk():
                if isinstance(n, ast.Call):
                    r = repo.resolve(n.func, f.module, f)
                    if isinstance(r, Class) and term in r.mro:
                        cs[r] = f
    for c in term.all_subclasses():
        if c.name.startswith("Default") and c.name.endswith("Termination") and not c.subclasses:
            cs.setdefault(c, c.lookup("__init__"))
    for c, f in sorted(cs.items(), key=lambda x: x[0].id):
        rep.count("default_criteria")
        b = budgets(repo, c, term)
        for kind in ("generations", "evaluations"):
            if not b.get(kind):
                rep.add("default-without-budget", f"{c.id}:{kind}", c.loc, f"{c.name} has no finite budget of {kind}")


def conversions(repo, rep):
    """MaximumGenerationTermination(... n_max_evals ...): one generation is the initial population"""
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if isinstance(f.node, ast.Lambda):
            continue
        for n in f.walk():
            if not isinstance(n, ast.Call):
                continue
            r = repo.resolve(n.func, f.module, f)
            if not (isinstance(r, Class) and r.name == "MaximumGenerationTermination" and (n.args or n.keywords)):
                continue
            v = n.args[0] if n.args else n.keywords[0].value
            try:
                eng = Engine(repo, f, repo.enclosing_class(f))
                env = {k: eng_single(repo, f, k) for k in repo.local_assigns(f)}
                from sa.sympath import Path
                p = Path({k: x for k, x in env.items() if x is not None})
                for _ in range(4):
                    v = eng.value(v, p)
            except Exception:
                continue
            ev = [x for x in ast.walk(v) if isinstance(x, ast.Attribute) and x.attr == "n_max_evals"]
            if not ev:
                continue
            rep.count("conversions")
            num, den = rational(v)
            ceil = [a for a in num.atoms() if "ceil(" in a]
            if len(ceil) != 1 or not den.is_const() or "floor(" in unparse(v, 400) or "int(" in unparse(v, 400) and not ceil:
                rep.add("converted-budget", f"{f.id}", f"{f.module.rel}:{n.lineno} {f.qual}", f"{unparse(v, 90)} generations do not use up the budget of evaluations")
                continue
            off = num - Poly.atom(ceil[0])
            arg = next(x.args[0] for x in ast.walk(v) if isinstance(x, ast.Call) and (dotted(x.func) or "").endswith("ceil") and x.args)
            a, b = rational(arg)
            E = [x for x in a.atoms() | b.atoms() if x.endswith("n_max_evals")]
            P = [x for x in a.atoms() | b.atoms() if x.endswith("pop_size")]
            O = [x for x in a.atoms() | b.atoms() if x.endswith("n_offsprings")]
            if len(E) == 1 and len(O) == 1 and off.is_const():
                want = (Poly.atom(E[0]) - Poly.atom(P[0]), Poly.atom(O[0])) if P else (Poly.atom(E[0]), Poly.atom(O[0]))
                k = off.value()
                if not same_ratio((a, b), want) or (k != 1 if P else k != 0):
                    rep.add("converted-budget", f"{f.id}", f"{f.module.rel}:{n.lineno} {f.qual}", f"{unparse(v, 110)} generations are not what the budget of evaluations allows")


def eng_single(repo, f, k):
    vs = repo.local_assigns(f).get(k, [])
    return vs[0] if len(vs) == 1 else None


# ------------------------------------------------------------------ self-tests
CORE = '''
import time
class Termination:
    def __init__(self):
        self.force_termination = False
        self.perc = 0.0
    def update(self, algorithm):
        if self.force_termination:
            progress = 1.0
        else:
            progress = self._update(algorithm)
            assert progress >= 0.0
        self.perc = progress
        return self.perc
    def has_terminated(self):
        return self.perc >= 1.0
    def do_continue(self):
        return not self.has_terminated()
    def _update(self, algorithm):
        raise NotImplementedError
class MaximumFunctionCallTermination(Termination):
    def __init__(self, n=1000):
        super().__init__()
        self.n = n
    def _update(self, algorithm):
        used = algorithm.evaluator.n_eval
        return used / self.n
class MaximumGenerationTermination(Termination):
    def __init__(self, n=100):
        super().__init__()
        self.n = n
    def _update(self, algorithm):
        return algorithm.n_gen / self.n
class TimeBasedTermination(Termination):
    def __init__(self, limit):
        super().__init__()
        self.limit = limit
    def _update(self, algorithm):
        elapsed = time.time() - algorithm.start_time
        return elapsed / self.limit
class TerminateIfAny(Termination):
    def __init__(self, *args):
        super().__init__()
        self.criteria = args
    def _update(self, algorithm):
        return max([c.update(algorithm) for c in self.criteria])
class TerminateIfAll(Termination):
    def __init__(self, *args):
        super().__init__()
        self.criteria = args
    def _update(self, algorithm):
        vals = []
        for c in self.criteria:
            vals.append(c.update(algorithm))
        return min(vals)
class DefaultTermination(Termination):
    def __init__(self, n_max_gen=1000, n_max_evals=10000):
        super().__init__()
        self.a = MaximumGenerationTermination(n_max_gen)
        self.b = MaximumFunctionCallTermination(n_max_evals)
        self.criteria = [self.a, self.b]
    def _update(self, algorithm):
        return max(c.update(algorithm) for c in self.criteria)
'''
ALGO = '''
import time
class Algorithm:
    def __init__(self):
        self.n_iter = None
        self.start_time = None
    def _initialize(self):
        self.n_iter = 1
        self.start_time = time.time()
    def run(self):
        while self.has_next():
            self.next()
    def has_next(self):
        return not self.termination.has_terminated()
    def next(self):
        infills = self.infill()
        if infills is not None:
            self.advance(infills=infills)
        else:
            self.advance()
    def infill(self):
        return self._infill()
    def advance(self, infills=None):
        val = self._advance(infills=infills)
        if val is None or val:
            self._post_advance()
    def _post_advance(self):
        self._set_optimum()
        self.termination.update(self)
        self.n_iter += 1
    def _set_optimum(self):
        self.opt = self.pop
    def _infill(self):
        pass
    def _advance(self, infills=None):
        pass
class GA(Algorithm):
    def _advance(self, infills=None):
        self.pop = infills
'''
MINI = {"pymoo/core.py": CORE, "pymoo/algorithm.py": ALGO}


def changed(key, *subs):
    s = MINI[key]
    for o, n in subs:
        assert s.count(o) >= 1, o
        s = s.replace(o, n, 1)
    return {**MINI, key: s}


SELFTESTS = [
    ("clean", MINI, []),
    ("rewritten", changed("pymoo/core.py", ("used / self.n", "1.0 * used / float(self.n)"), ("return max([c.update(algorithm) for c in self.criteria])", "vals = [c.update(algorithm) for c in self.criteria]\n        best = vals[0]\n        for v in vals[1:]:\n            if v > best:\n                best = v\n        return best"),
                          ("return self.perc >= 1.0", "return not self.perc < 1.0")), []),
    ("counted twice", changed("pymoo/algorithm.py", ("self.n_iter += 1", "self.n_iter += 1\n        if self.opt is None:\n            self.termination.update(self)")), [("iteration-not-counted", "pymoo.algorithm:Algorithm._post_advance:2,1"), ("iteration-not-counted", "pymoo.algorithm:Algorithm.advance:2,1")]),
    ("counted before", changed("pymoo/algorithm.py", ("self.termination.update(self)\n        self.n_iter += 1", "self.n_iter += 1\n        self.termination.update(self)")), [("iteration-order", "pymoo.algorithm:Algorithm._post_advance:order")]),
    ("written elsewhere", changed("pymoo/algorithm.py", ("self.pop = infills\n", "self.pop = infills\n        self.n_iter = 3\n")), [("counter-written-elsewhere", "pymoo.algorithm:GA._advance:n_iter")]),
    ("fraction", changed("pymoo/core.py", ("used / self.n", "(used - 1) / self.n")), [("budget-fraction", "pymoo.core:MaximumFunctionCallTermination.n")]),
    ("limit", changed("pymoo/core.py", ("self.n = n\n", "self.n = n + 1\n")), [("budget-fraction", "pymoo.core:MaximumFunctionCallTermination.n:limit")]),
    ("negative", changed("pymoo/core.py", ("return algorithm.n_gen / self.n", "return 1 - algorithm.n_gen / self.n")), [("negative-progress", "pymoo.core:MaximumGenerationTermination"), ("budget-fraction", "pymoo.core:MaximumGenerationTermination.n")]),
    ("short cut", changed("pymoo/core.py", ("max([c.update(algorithm) for c in self.criteria])", "any(c.update(algorithm) >= 1 for c in self.criteria)")), [("composition", "pymoo.core:TerminateIfAny:shortcut")]),
    ("direction", changed("pymoo/core.py", ("min(vals)", "max(vals)")), [("composition", "pymoo.core:TerminateIfAll:combination")]),
    ("unused", changed("pymoo/core.py", ("self.criteria = [self.a, self.b]", "self.criteria = [self.a]")), [("criterion-unused", "pymoo.core:DefaultTermination.b")]),
    ("endless", changed("pymoo/core.py", ("n_max_evals=10000", "n_max_evals=float('inf')")), [("default-without-budget", "pymoo.core:DefaultTermination:evaluations")]),
    ("stop", changed("pymoo/core.py", ("self.perc >= 1.0", "self.perc > 1.0")), [("stop-condition", q) for q in ("pymoo.core:Termination.has_terminated", "pymoo.core:Termination.do_continue", "pymoo.algorithm:Algorithm.has_next")]),
    ("left out", changed("pymoo/core.py", ("return max(c.update(algorithm) for c in self.criteria)", "p = [c.update(algorithm) for c in self.criteria]\n        return max(p[:-1])")), [("composition", "pymoo.core:DefaultTermination:left-out")]),
    ("mixed", changed("pymoo/core.py", ("    def __init__(self, n=1000):", "    def __init__(self, n_max_evals=1000):\n        n = n_max_evals"), ("MaximumFunctionCallTermination(n_max_evals)", "MaximumFunctionCallTermination(n_max_gen)")), [("budget-mixed", "pymoo.core:DefaultTermination.__init__:n_max_evals")]),
    ("elsewhere", changed("pymoo/algorithm.py", ("infills = self.infill()", "self.termination.update(self)\n        infills = self.infill()")), [("criterion-updated-elsewhere", "pymoo.algorithm:Algorithm.next:update")]),
]
