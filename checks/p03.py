"""P03 - every problem evaluation goes through the run's evaluator and is counted once."""
import ast
from sa.model import *
from sa.util import *
from sa.symb import *
from sa.paths import Walker

EXPLANATION = (
    "Call-graph query plus path analysis of the evaluator. (1) bypass: every reference that resolves to Problem.evaluate/do/_evaluate* in code "
    "that takes part in a run (algorithms, core, operators, util, constraints, termination, vendor and every package function they call) must be "
    "inside the Evaluator. (2) counter: every store to an evaluator's n_eval in the package; only the evaluator's own eval may change it. "
    "(3) Evaluator.eval is followed along all statement paths, helpers of the class inlined: on each path the population that is handed to the problem "
    "and the number added to n_eval must denote the same index set, once each, unless counting is switched off; values and the evaluated marks "
    "must be stored for the same population. (4) the filter for missing values must select exactly the solutions with a missing value. (5) wrappers that "
    "delegate to another evaluator forward all options and report its counter. (6) no second evaluator is created during a run and no evaluation "
    "is requested with counting switched off."
)
ASSUMPTIONS = ["problems are named problem or typed by the package's own annotations/constructors where algorithms evaluate them",
               "numpy's len/size/shape of an index array is the number of selected solutions"]
RUN = ("pymoo.algorithms", "pymoo.core", "pymoo.operators", "pymoo.util", "pymoo.constraints", "pymoo.termination", "pymoo.vendor", "pymoo.experimental",
       "pymoo.decomposition", "pymoo.optimize")
EVALS = {"evaluate", "do", "_evaluate", "_evaluate_elementwise", "_evaluate_vectorized"}


def run(repo, rep):
    rep.rule("bypass", "run code evaluates a problem only through the Evaluator")
    rep.rule("counter-write", "n_eval of an evaluator is changed by Evaluator.eval only")
    rep.rule("count-mismatch", "Evaluator.eval adds exactly the number of solutions handed to the problem, once on every path")
    rep.rule("skip-filter", "a solution is skipped exactly if none of the requested values is missing")
    rep.rule("results-not-stored", "values and evaluated marks are stored for the population that was evaluated")
    rep.rule("wrapper", "evaluator wrappers forward the request and report the counter of the wrapped evaluator")
    rep.rule("request-ignored", "the options given with a request are the ones used")
    rep.rule("evaluated-again", "run code does not ask for solutions that are evaluated already to be evaluated again")
    rep.rule("second-evaluator", "no evaluation of a run is counted by another evaluator or not at all")
    EV = repo.cls("pymoo.core.evaluator:Evaluator")
    PR = repo.cls("pymoo.core.problem:Problem")
    pfam, efam = PR.family(), EV.family()
    runf = run_code(repo, pfam)
    rep.count("run_code_functions", len(runf))
    for f in runf:
        if in_family(repo, f, pfam):
            continue
        for n in f.walk():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in EVALS:
                if is_problem(repo, n.value, f, pfam, strict=n.attr not in ("evaluate", "_evaluate")):
                    rep.count("problem_evaluation_references")
                    if in_family(repo, f, efam):
                        rep.count("evaluations_inside_evaluator")
                    elif f.module.name.endswith(".hyperparameters"):
                        continue
                    else:
                        rep.add("bypass", f"{owner(repo, f)} {n.attr}", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 60)}` evaluates the problem without the evaluator: budget, callbacks and the count of evaluations miss it")
            if isinstance(n, ast.Call):
                r = repo.resolve(n.func, f.module, f)
                if isinstance(r, Class) and r in efam:
                    rep.count("evaluators_constructed")
                    if any(k.arg == "skip_already_evaluated" and is_false(k.value) for k in n.keywords) or n.args and is_false(n.args[0]):
                        rep.add("evaluated-again", owner(repo, f) + " " + r.name, f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 60)}`: the evaluator of the run evaluates and counts solutions again that have their values")
                    if not default_guarded(f, n) and not wraps(repo, n, f, efam):
                        rep.add("second-evaluator", owner(repo, f) + " " + r.name, f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 60)}` creates another evaluator during a run: what it evaluates is not counted by the run")
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "eval":
                    rep.count("evaluation_requests")
                    kw = {k.arg: k.value for k in n.keywords if k.arg}
                    if is_false(kw.get("skip_already_evaluated")) and "evaluate_values_of" not in kw:
                        rep.add("evaluated-again", owner(repo, f) + " skip_already_evaluated=False", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 80)}` evaluates and counts solutions again that have their values")
                    for k in n.keywords:
                        if k.arg == "count_evals" and isinstance(k.value, ast.Constant) and k.value.value is False:
                            rep.add("second-evaluator", owner(repo, f) + " count_evals=False", f"{f.module.rel}:{n.lineno} {f.qual}",
                                    f"`{unparse(n, 80)}` evaluates solutions without counting them")
    counter_writes(repo, rep, efam)
    for c in sorted(efam, key=lambda x: x.id):
        if "eval" in c.methods:
            evaluator_class(repo, rep, c, EV, pfam, efam)
        for f in c.methods.values():
            skip_filters(repo, rep, f)
            options_used(repo, rep, f)
            nothing_skipped(repo, rep, f)
            values_kept(repo, rep, f)
    rep.floor("evaluator_paths", 4)
    rep.floor("problem_evaluation_references", 1)
    if not getattr(repo, "mini", False):
        rep.floor("evaluation_requests", 15)
        rep.floor("run_code_functions", 600)
        rep.floor("skip_filters", 1)


def owner(repo, f):
    """the class (or module) a function belongs to: findings keep their name when code moves between its methods"""
    c = repo.enclosing_class(f)
    return c.id if c is not None else f.module.name


def in_family(repo, f, fam):
    c = repo.enclosing_class(f)
    return c in fam or (c is not None and c.name.startswith("ElementwiseEvaluationFunction"))


def run_code(repo, pfam):
    def base(f):
        return (f.module.name.startswith(RUN) and not f.module.name.startswith("pymoo.core.problem")
                and not in_main_guard(f.module, f.node) and not in_family(repo, f, pfam))
    out = {f for f in repo.funcs.values() if base(f)}
    work = sorted(out, key=lambda f: f.id)
    while work:
        f = work.pop()
        for n in f.walk():
            if isinstance(n, ast.Call):
                for t in repo.resolve_call(n, f, fallback=False):
                    if isinstance(t, Func) and t not in out and not in_family(repo, t, pfam) and not t.module.name.startswith(("pymoo.problems", "pymoo.indicators", "pymoo.visualization")):
                        out.add(t)
                        work.append(t)
    return sorted(out, key=lambda f: f.id)


def is_problem(repo, e, f, pfam, strict=False):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super":
        return False
    if isinstance(e, ast.Name) and e.id == repo.self_name(f):
        c = repo.enclosing_class(f)
        return c in pfam
    ts = repo.typeset(e, f)
    if any(t in pfam for t in ts):
        return not strict or all(t in pfam for t in ts)
    nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""
    if isinstance(e, ast.Name):
        v = repo.local_assigns(f).get(e.id, [])
        if len(v) == 1 and isinstance(v[0], (ast.Name, ast.Attribute)) and (not isinstance(v[0], ast.Name) or v[0].id != e.id):
            return is_problem(repo, v[0], f, pfam, strict)
    return nm in ("problem", "_problem", "prob") or nm.endswith("_problem")


def default_guarded(f, call):
    """Evaluator() as a default for a missing one: `if evaluator is None: evaluator = Evaluator()`, `e if e is not None else Evaluator()`, `e or Evaluator()`"""
    for a in ancestors(f.module, call):
        if isinstance(a, (ast.If, ast.IfExp)) and any(isinstance(n, ast.Constant) and n.value is None for n in ast.walk(a.test)):
            return True
        if isinstance(a, ast.BoolOp) and isinstance(a.op, ast.Or):
            return True
        if a is f.node:
            return any(a is d for d in f.defaults.values())
    return False


def wraps(repo, call, f, efam):
    for a in call.args + [k.value for k in call.keywords]:
        nm = a.attr if isinstance(a, ast.Attribute) else a.id if isinstance(a, ast.Name) else ""
        if nm.endswith("evaluator") or any(t in efam for t in repo.typeset(a, f)):
            return True
    return False


def is_evaluator(repo, e, f, efam):
    if isinstance(e, ast.Name) and f is not None and e.id == repo.self_name(f):
        return repo.enclosing_class(f) in efam
    nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""
    return nm.endswith("evaluator") or (f is not None and any(t in efam for t in repo.typeset(e, f)))


def counter_writes(repo, rep, efam):
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            tgt = None
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr == "n_eval":
                tgt = n.value
            elif isinstance(n, ast.Call) and dotted(n.func) == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "n_eval":
                tgt = n.args[0]
            if tgt is None:
                continue
            f = enclosing_func(m, n)
            if f is None or in_main_guard(m, n) or not is_evaluator(repo, tgt, f, efam):
                continue
            rep.count("counter_writes")
            c = repo.enclosing_class(f)
            if c in efam and f.parent is None:
                if f.name == "__init__":
                    continue
                if reached_from_eval(repo, c, f):
                    continue
            rep.add("counter-write", owner(repo, f) + " n_eval", f"{m.rel}:{n.lineno} {f.qual}", f"`{unparse(tgt, 40)}.n_eval` is changed outside Evaluator.eval")


def reached_from_eval(repo, c, f):
    seen, work = set(), [k.methods["eval"] for k in c.family() | set(x for x in c.mro if isinstance(x, Class)) if "eval" in k.methods]
    while work:
        g = work.pop()
        if g in seen:
            continue
        seen.add(g)
        for n in g.walk():
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == g.selfname:
                t = c.lookup(n.attr)
                if t is not None:
                    work.append(t)
    return f in seen


# ------------------------------------------------------------------------------------------- the evaluator itself
class EvalPaths(Walker):
    loops_once = True

    def __init__(self, repo, c, pfam, efam):
        super().__init__(repo)
        self.c, self.pfam, self.efam = c, pfam, efam

    # state: (exempt, empties, evaluated population, counted expr, n evaluations, n counts, values set, marked, delegated)
    START = (None, frozenset(), None, None, 0, 0, False, False, 0)

    def inline(self, call, ctx):
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == ctx.f.selfname:
            t = self.c.lookup(fn.attr)
            if t is not None and t.name != "callback":
                return enter(ctx, call, t)
        return None

    def event(self, n, ctx, s):
        ex, em, P, N, e, c, v, m, d = s
        f = ctx.f
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if a in EVALS and is_problem(self.repo, n.func.value, f, self.pfam, strict=a == "do"):
                arg = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ("X", "x")), None)
                P, e = population_of(arg, ctx), min(e + 1, 3)
                self.loop_of_eval = innermost_loop(f, n)
            elif a == "eval" and (is_evaluator(self.repo, n.func.value, f, self.efam) or is_super(n.func.value) or
                                  (isinstance(n.func.value, ast.Attribute) and n.func.value.attr in ("wrapped", "inner", "base"))):
                d = min(d + 1, 3)
                self.delegate = (n, f, is_super(n.func.value))
            elif a in ("set", "__setattr__") and e and canon(n.func.value, ctx) not in ("out",):
                v = True
            elif a in ("update", "add") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "evaluated" and e:
                m = True
            if e and any(isinstance(x, ast.Attribute) and x.attr == "evaluated" for y in n.args for x in ast.walk(y)):
                m = True
        elif isinstance(n, ast.Call) and dotted(n.func) == "setattr" and e:
            v = True
        elif isinstance(n, ast.AugAssign) and is_attr(n.target, "evaluated") and e:
            m = True
        if isinstance(n, (ast.AugAssign, ast.Assign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if is_attr(t, "n_eval") and isinstance(t.value, ast.Name) and t.value.id == f.selfname:
                    val = n.value
                    if isinstance(n, ast.Assign):
                        if isinstance(val, ast.BinOp) and isinstance(val.op, ast.Add):
                            val = val.right if "n_eval" in unparse(val.left) else val.left
                        elif is_attr(val, "n_eval"):
                            N, c = "sync", min(c + 1, 3)
                            continue
                    elif not isinstance(n.op, ast.Add):
                        N, c = "?" + type(n.op).__name__, min(c + 1, 3)
                        continue
                    N, c = canon(val, ctx), min(c + 1, 3)
                    if N == "1" and innermost_loop(f, n) is not None and innermost_loop(f, n) is getattr(self, "loop_of_eval", None):
                        N = "each"
                elif is_attr(t, "evaluated") and e:
                    m = True
        return (ex, em, P, N, e, c, v, m, d)

    def branch(self, test, ctx, s, taken):
        ex, em, P, N, e, c, v, m, d = s
        t = canon(test, ctx)
        if t.split("@")[0] == "count_evals":
            if ex is not None and ex == taken:
                return None
            ex = not taken
        z = emptiness(test, ctx)
        if z is not None:
            what, when = z
            if when == taken:
                em = em | {what}
            elif what in em:
                return None
        return (ex, em, P, N, e, c, v, m, d)


def is_attr(n, name):
    return isinstance(n, ast.Attribute) and n.attr == name


def is_super(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super"


def innermost_loop(f, n):
    for a in ancestors(f.module, n):
        if isinstance(a, (ast.For, ast.While)):
            return a
        if a is f.node:
            return None
    return None


def emptiness(test, ctx):
    """(canonical name of the collection, outcome that means empty)"""
    def length(e):
        if isinstance(e, ast.Call) and dotted(e.func) in ("len", "np.sum", "np.count_nonzero", "sum") and e.args:
            return canon(e.args[0], ctx)
        if is_attr(e, "size"):
            return canon(e.value, ctx)
        c = canon(e, ctx)
        if c.startswith("len(") and c.endswith(")"):
            return c[4:-1]
        return None
    z = length(test)
    if z is not None:
        return z, False
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
        z, k, op = length(test.left), test.comparators[0].value, test.ops[0]
        if z is not None:
            if (isinstance(op, (ast.Gt, ast.NotEq)) and k == 0) or (isinstance(op, ast.GtE) and k == 1):
                return z, False
            if (isinstance(op, ast.Eq) and k == 0) or (isinstance(op, ast.Lt) and k == 1):
                return z, True
    return None


def population_of(arg, ctx):
    """canonical population whose variables are evaluated"""
    if isinstance(arg, ast.Name):
        if ctx.up is not None and arg.id in ctx.args:
            return population_of(ctx.args[arg.id], ctx.up)
        v = single(ctx, arg.id)
        if v is not None:
            return population_of(v, ctx)
    if isinstance(arg, ast.Call):
        if isinstance(arg.func, ast.Attribute) and arg.func.attr == "get" and arg.args and isinstance(arg.args[0], ast.Constant) and arg.args[0].value == "X":
            return canon(arg.func.value, ctx)
        if dotted(arg.func) in ("np.array", "np.asarray", "np.stack", "np.vstack", "list") and arg.args:
            return population_of(arg.args[0], ctx)
    if isinstance(arg, ast.Attribute) and arg.attr == "X":
        return canon(arg.value, ctx)
    if isinstance(arg, (ast.ListComp, ast.GeneratorExp)) and len(arg.generators) == 1 and not arg.generators[0].ifs:
        return canon(arg.generators[0].iter, ctx)
    return None


def same_number(N, P):
    """does the count expression N denote the number of solutions in population P (canonical texts)"""
    if P is None or N == "each":
        return True
    alts = {P}
    base = P
    if P.endswith("]"):
        depth = 0
        for i in range(len(P) - 1, -1, -1):
            depth += (P[i] == "]") - (P[i] == "[")
            if depth == 0:
                alts.add(P[i + 1:-1])
                base = P[:i]
                break
    for a in alts:
        for form in (f"len({a})", f"{a}.size", f"{a}.shape[0]", f"sum({a})", f"np.sum({a})", f"np.count_nonzero({a})", f"{a}.sum()"):
            if N in (form, f"int({form})"):
                return True
    return False


def evaluator_class(repo, rep, c, EV, pfam, efam):
    f = c.methods["eval"]
    w = EvalPaths(repo, c, pfam, efam)
    states, _ = w.run(f, Ctx(repo, f, cls=c), {EvalPaths.START})
    loc = f.loc
    rep.count("evaluator_paths", len(states))
    delegating = [s for s in states if s[8]]
    if delegating:
        call, df, sup = w.delegate
        if any(s[8] != 1 for s in states):
            rep.add("wrapper", f.id + " delegation", loc, "the request is not passed to the wrapped evaluator exactly once on every path")
        names = {k.arg for k in call.keywords if k.arg}
        star = any(k.arg is None for k in call.keywords)
        bound = set(EV.methods["eval"].params[: len(call.args)])
        for p in ("skip_already_evaluated", "evaluate_values_of", "count_evals"):
            if p in f.params + f.kwonly and p not in names and p not in bound:
                rep.add("wrapper", f"{f.id} {p}", loc, f"the option `{p}` of the request is not passed on to the wrapped evaluator")
        if not star and f.kwarg:
            rep.add("wrapper", f"{f.id} **{f.kwarg}", loc, "further options of the request are not passed on")
        prop = any("n_eval" in k.methods for k in c.mro if isinstance(k, Class))
        if not sup and not prop and any(s[3] != "sync" and not s[0] for s in delegating):
            rep.add("wrapper", f"{f.id} n_eval", loc, "the wrapper does not report the counter of the evaluator that evaluates")
        rep.count("wrappers")
        return
    if not any(s[4] for s in states):
        rep.add("count-mismatch", f.id + " evaluates nothing", loc, "no path of this evaluator evaluates the problem")
        return
    for s in sorted(states, key=str):
        ex, em, P, N, e, n, v, m, d = s
        rep.sample("path", f"evaluations={e} of {P}, counted {n} x {N}, counting off={ex}, empty={sorted(em)}")
        empty = any(z == P or (P and z in P) for z in em)
        if e > 1 or n > 1:
            rep.add("count-mismatch", f.id + " twice", loc, f"a path evaluates {e} time(s) and counts {n} time(s)")
        if e == 1 and n == 0 and not ex:
            rep.add("count-mismatch", f.id + " uncounted", loc, f"a path evaluates {P} but does not increase n_eval")
        if n and (ex or (ex is None and "count_evals" in f.params + f.kwonly)):
            rep.add("count-mismatch", f.id + " count_evals", loc, "the evaluation is counted although counting can be switched off by the request")
        if e == 1 and n == 1 and not same_number(N, P):
            rep.add("count-mismatch", f.id + " number", loc, f"n_eval is increased by `{N}` while the solutions evaluated are `{P}`")
        if e == 0 and n and not ex and not any(same_number(N, z) for z in em) and N not in ("0",):
            rep.add("count-mismatch", f.id + " not evaluated", loc, f"n_eval is increased by `{N}` on a path that evaluates nothing")
        if e and not any(x[6] for x in states if x[4]):
            rep.add("results-not-stored", f.id + " values", loc, "a path evaluates solutions without storing the values on them")
        if e and not m:
            rep.add("results-not-stored", f.id + " evaluated", loc, "a path evaluates solutions without recording what has been evaluated; they would be evaluated and counted again")


# ------------------------------------------------------------------------------------------- skip filter
FLIP = {"all_present": "exists_missing", "exists_missing": "all_present", "exists_present": "all_missing", "all_missing": "exists_present", None: None}


def quant(e):
    """logical form of a test on the evaluated marks, and the list of required values"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        q, v = quant(e.operand)
        return FLIP[q], v
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and e.args:
        return quant(e.args[0])
    if isinstance(e, ast.Call) and e.args and (dotted(e.func) or "").split(".")[-1] in ("all", "any") and isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp)):
        g = e.args[0]
        t, neg = g.elt, False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and mentions(t.comparators[0]):
            present = isinstance(t.ops[0], ast.In) != neg
            al = dotted(e.func).split(".")[-1] == "all"
            return (("all_" if al else "exists_") + ("present" if present else "missing")), g.generators[0].iter
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b, op = e.left, e.comparators[0], e.ops[0]
        if mentions(b) and isinstance(op, ast.LtE):
            return "all_present", a
        if mentions(a) and isinstance(op, ast.GtE):
            return "all_present", b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.args:
        if e.func.attr == "issubset" and mentions(e.args[0]):
            return "all_present", e.func.value
        if e.func.attr == "issuperset" and mentions(e.func.value):
            return "all_present", e.args[0]
        if e.func.attr == "isdisjoint":
            return "all_missing", e.func.value
        if e.func.attr == "difference" and mentions(e.args[0]):
            return "exists_missing", e.func.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and mentions(e.right):
        return "exists_missing", e.left
    return None, None


def mentions(e):
    return any(isinstance(n, ast.Attribute) and n.attr == "evaluated" for n in ast.walk(e))


def skip_filters(repo, rep, f):
    for n in f.walk():
        tests = []
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            tests = [(t, "exists_missing") for g in n.generators for t in g.ifs]
        elif isinstance(n, ast.If):
            if any(isinstance(b, ast.Continue) for b in n.body):
                tests = [(n.test, "all_present")]
            elif any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add") for b in n.body for x in ast.walk(b)):
                tests = [(n.test, "exists_missing")]
        for t, want in tests:
            if not mentions(t):
                continue
            rep.count("skip_filters")
            q, v = quant(t)
            if q is not None and q != want:
                rep.add("skip-filter", f.id, f"{f.module.rel}:{t.lineno} {f.qual}", f"`{unparse(t, 90)}` selects the wrong solutions ({q} instead of {want})")
            if v is not None and isinstance(v, ast.Attribute):
                rep.add("skip-filter", f.id + " values", f"{f.module.rel}:{t.lineno} {f.qual}",
                        f"`{unparse(v, 40)}` is used instead of the values requested in this call")


# ------------------------------------------------------------------------------------------- the options of a request
OPTIONS = ("skip_already_evaluated", "evaluate_values_of", "count_evals")


def is_false(e):
    return isinstance(e, ast.Constant) and e.value is False


def given(e, p):
    """what `e` may be when the option `p` was given with the request (not None): set of 'given', 'other', 'maybe'"""
    if isinstance(e, ast.Name) and e.id == p:
        return {"given"}
    if isinstance(e, ast.IfExp):
        k = none_test(e.test, p)
        if k is not None:
            return given(e.orelse if k else e.body, p)
        return given(e.body, p) | given(e.orelse, p)
    if isinstance(e, ast.BoolOp) and any(isinstance(v, ast.Name) and v.id == p for v in e.values):
        if isinstance(e.op, ast.Or) and p == "evaluate_values_of" and isinstance(e.values[0], ast.Name):
            return {"given"}
        return {"other"}
    if isinstance(e, ast.Call) and any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(e)):
        return {"given"}        # left to a helper
    return {"other"}


def none_test(t, p):
    """True for `p is None`, False for `p is not None`"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        k = none_test(t.operand, p)
        return None if k is None else not k
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == p \
            and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return isinstance(t.ops[0], (ast.Is, ast.Eq))
    return None


def options_used(repo, rep, f):
    """the default of the evaluator is only used where the request does not say otherwise"""
    for n in f.walk():
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1):
            continue
        pairs = [(n.targets[0], n.value)]
        if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(n.targets[0].elts):
            pairs = list(zip(n.targets[0].elts, n.value.elts))
        for t, v in pairs:
            for p in OPTIONS:
                if p not in f.params + f.kwonly or not isinstance(t, ast.Name):
                    continue
                if not any(is_attr(x, p) and isinstance(x.value, ast.Name) and x.value.id == f.selfname for x in ast.walk(v)):
                    continue
                rep.count("option_defaults")
                if not isinstance(v, (ast.Attribute, ast.IfExp, ast.BoolOp)) or guarded_none(f, n, p):
                    continue
                if "other" in given(v, p):
                    rep.add("request-ignored", f"{f.id} {p}", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n, 90)}`: a request that gives `{p}` is answered with the setting of the evaluator")


def guarded_none(f, n, p):
    for st in f.walk():
        if isinstance(st, ast.If):
            k = none_test(st.test, p)
            if k is not None and any(n is x for b in (st.body if k else st.orelse) for x in ast.walk(b)):
                return True
    return False


SELECTING = {"numpy.unique", "numpy.where", "numpy.nonzero", "numpy.flatnonzero", "builtins.set", "builtins.filter", "numpy.argwhere"}


def nothing_skipped(repo, rep, f):
    """where nothing is to be skipped the request covers the whole population"""
    for st in f.walk():
        if not isinstance(st, ast.If):
            continue
        t, off = st.test, st.orelse
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, off = t.operand, st.body
        if not (isinstance(t, ast.Name) and t.id == "skip_already_evaluated" or is_attr(t, "skip_already_evaluated")):
            continue
        for b in off:
            for n in ast.walk(b):
                if not isinstance(n, ast.Assign):
                    continue
                rep.count("unfiltered_requests")
                for x in ast.walk(n.value):
                    bad = isinstance(x, ast.comprehension) and x.ifs
                    if isinstance(x, ast.Call):
                        r = repo.resolve(x.func, f.module, f)
                        bad = bad or isinstance(r, Ext) and r.path in SELECTING
                        bad = bad or isinstance(r, Ext) and r.path in ("builtins.range", "numpy.arange") and (
                            len(x.args) > 1 and not (isinstance(x.args[0], ast.Constant) and x.args[0].value == 0) or isinstance(x.args[-1], ast.BinOp))
                    if bad:
                        rep.add("skip-filter", f.id + " all", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 90)}` leaves solutions out of a request that skips nothing")
                        break


def values_kept(repo, rep, f):
    """the values returned are stored unless there are none"""
    for st in f.walk():
        if not (isinstance(st, ast.For) and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and isinstance(st.iter, ast.Call)
                and isinstance(st.iter.func, ast.Attribute) and st.iter.func.attr == "items" and isinstance(st.target.elts[1], ast.Name)):
            continue
        val = st.target.elts[1].id
        stores = [n for n in ast.walk(st) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("set", "__setattr__")
                  or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr"]
        stores = [n for n in stores if any(isinstance(x, ast.Name) and x.id == val for a in n.args for x in ast.walk(a))]
        if not stores:
            continue
        rep.count("value_stores")
        for c in ast.walk(st):
            if not isinstance(c, ast.If):
                continue
            inside = any(n is x for n in stores for b in c.body + c.orelse for x in ast.walk(b))
            skips = any(isinstance(x, (ast.Continue, ast.Break)) for b in c.body + c.orelse for x in ast.walk(b))
            if not (inside or skips):
                continue
            for q in conjuncts(c.test):
                if any(isinstance(x, ast.Name) and x.id == val for x in ast.walk(q)) and none_test(q, val) is None and not nonempty(q, val):
                    rep.add("results-not-stored", f.id + " condition", f"{f.module.rel}:{c.lineno} {f.qual}",
                            f"values the problem returned are not stored when `{unparse(q, 60)}` says so")


def conjuncts(t):
    if isinstance(t, ast.BoolOp):
        return [x for v in t.values for x in conjuncts(v)]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return conjuncts(t.operand)
    return [t]


def nonempty(q, val):
    """a test of whether the array has any element at all"""
    def length(e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and unparse(e.args[0]) == val or is_attr(e, "size") and unparse(e.value) == val
    if length(q):
        return True
    if isinstance(q, ast.Compare) and len(q.ops) == 1 and length(q.left) and isinstance(q.comparators[0], ast.Constant):
        return q.comparators[0].value == 0 or q.comparators[0].value == 1 and isinstance(q.ops[0], (ast.GtE, ast.Lt))
    return False


STUB = {"pymoo/core/problem.py": """
    class Problem:
        def evaluate(self, X, **kwargs):
            return self._evaluate(X)
        def _evaluate(self, X):
            pass
    """}
SELFTESTS = [
    ("evaluator", {**STUB, "pymoo/core/evaluator.py": """
    class Evaluator:
        def __init__(self):
            self.n_eval = 0
        def eval(self, problem, pop, skip=None, count_evals=True, evaluate_values_of=None):
            I = self._missing(pop, evaluate_values_of)
            if len(I) > 0:
                off = pop[I]
                self._eval(problem, off)
            if count_evals:
                self._count(len(I))
            return pop
        def _missing(self, pop, values):
            I = []
            for i, ind in enumerate(pop):
                if all(v in ind.evaluated for v in values):
                    continue
                I.append(i)
            return I
        def _count(self, n):
            self.n_eval = self.n_eval + n
        def _eval(self, problem, pop):
            out = problem.evaluate(pop.get("X"))
            for k, v in out.items():
                pop.set(k, v)
            for ind in pop:
                ind.evaluated.update(out)
    """, "pymoo/algorithms/a.py": """
    from pymoo.core.evaluator import Evaluator
    class A:
        def _advance(self):
            f = self.problem.evaluate([1])
            self.evaluator.n_eval += 3
            Evaluator().eval(self.problem, self.pop)
            self.evaluator.eval(self.problem, self.pop, count_evals=False)
    """}, [("bypass", "pymoo.algorithms.a:A evaluate"), ("counter-write", "pymoo.algorithms.a:A n_eval"),
           ("second-evaluator", "pymoo.algorithms.a:A Evaluator"), ("second-evaluator", "pymoo.algorithms.a:A count_evals=False")]),
    ("wrong-count", {**STUB, "pymoo/core/evaluator.py": """
    class Evaluator:
        def __init__(self):
            self.n_eval = 0
        def eval(self, problem, pop, count_evals=True, evaluate_values_of=None):
            I = [i for i, ind in enumerate(pop) if not any(v in ind.evaluated for v in self.evaluate_values_of)]
            if len(I) > 0:
                sub = pop[I]
                out = problem.evaluate(sub.get("X"))
                sub.set("F", out)
            self.n_eval += len(pop)
    """}, [("count-mismatch", "pymoo.core.evaluator:Evaluator.eval number"), ("count-mismatch", "pymoo.core.evaluator:Evaluator.eval count_evals"), ("count-mismatch", "pymoo.core.evaluator:Evaluator.eval not evaluated"),
           ("skip-filter", "pymoo.core.evaluator:Evaluator.eval"), ("skip-filter", "pymoo.core.evaluator:Evaluator.eval values"),
           ("results-not-stored", "pymoo.core.evaluator:Evaluator.eval evaluated")]),
    ("options", {**STUB, "pymoo/core/evaluator.py": """
    import numpy as np
    class Evaluator:
        def __init__(self):
            self.n_eval = 0
        def eval(self, problem, pop, skip_already_evaluated=None, evaluate_values_of=None, count_evals=True):
            skip_already_evaluated = skip_already_evaluated or self.skip_already_evaluated
            evaluate_values_of = self.evaluate_values_of
            if skip_already_evaluated:
                I = [i for i, ind in enumerate(pop) if not all(v in ind.evaluated for v in evaluate_values_of)]
            else:
                I = np.unique(pop.get("X"), axis=0, return_index=True)[1]
            if len(I) > 0:
                sub = pop[I]
                out = problem.evaluate(sub.get("X"))
                for k, v in out.items():
                    if v is not None and len(v) > 1:
                        sub.set(k, v)
                for ind in sub:
                    ind.evaluated.update(out)
            if count_evals:
                self.n_eval += len(I)

    class Good(Evaluator):
        def eval(self, problem, pop, skip_already_evaluated=None, evaluate_values_of=None, count_evals=True):
            if skip_already_evaluated is None:
                skip_already_evaluated = self.skip_already_evaluated
            values = evaluate_values_of if evaluate_values_of is not None else self.evaluate_values_of
            if not skip_already_evaluated:
                I = list(range(len(pop)))
            else:
                I = [i for i, ind in enumerate(pop) if not all(v in ind.evaluated for v in values)]
            if len(I) > 0:
                sub = pop[I]
                out = problem.evaluate(sub.get("X"))
                for k, v in out.items():
                    if v is None:
                        continue
                    sub.set(k, v)
                for ind in sub:
                    ind.evaluated.update(out)
            if count_evals:
                self.n_eval += len(I)
    """, "pymoo/algorithms/a.py": """
    from pymoo.core.evaluator import Evaluator
    class A:
        def __init__(self, evaluator=None):
            self.evaluator = evaluator
            if evaluator is None:
                self.evaluator = Evaluator(skip_already_evaluated=False)
        def _advance(self):
            self.problem.evaluate([1])
            self.evaluator.eval(self.problem, self.pop, skip_already_evaluated=False)
    """}, [("request-ignored", "pymoo.core.evaluator:Evaluator.eval skip_already_evaluated"), ("request-ignored", "pymoo.core.evaluator:Evaluator.eval evaluate_values_of"),
           ("skip-filter", "pymoo.core.evaluator:Evaluator.eval all"), ("results-not-stored", "pymoo.core.evaluator:Evaluator.eval condition"),
           ("evaluated-again", "pymoo.algorithms.a:A Evaluator"), ("evaluated-again", "pymoo.algorithms.a:A skip_already_evaluated=False"),
           ("bypass", "pymoo.algorithms.a:A evaluate")]),
]
