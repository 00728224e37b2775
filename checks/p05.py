"""P05 - asking for candidates does not evaluate anything."""
import ast
from sa.model import *
from sa.util import *

EXPLANATION = (
    "Receiver-class-sensitive call-graph reachability, once per algorithm class: from its setup, ask and infill (and what they dispatch to in that class: "
    "_setup, _initialize, _initialize_infill, _infill, operators, generators, nested functions, helpers) no call may reach Evaluator.eval or an evaluation method "
    "of a problem, no store may advance the iteration counter, and no call may finish an iteration (advance, tell, next, _post_advance, termination update)."
)
ASSUMPTIONS = ["operators and callables supplied by the user are outside the package",
               "calls whose receiver cannot be typed resolve to the package's methods of that name for established receiver names (evaluator, problem)"]
EVALS = {"evaluate", "do", "_evaluate", "_evaluate_elementwise", "_evaluate_vectorized"}
FINISH = {"advance", "tell", "next", "_post_advance", "run"}
ROOTS = ("setup", "ask", "infill")
HOOKS = ("_setup", "_initialize", "_initialize_infill", "_infill")        # what a wrapper puts in front of the wrapped algorithm's
APPLY = {"apply", "map", "filter", "sorted", "min", "max", "apply_along_axis", "vectorize", "reduce", "list", "starmap"}


def run(repo, rep):
    rep.rule("ask-evaluates", "an evaluation is reachable from setup/ask/infill of an algorithm")
    rep.rule("ask-advances", "asking an algorithm advances its iteration counter or finishes an iteration")
    AL = repo.cls("pymoo.core.algorithm:Algorithm")
    EV = repo.cls("pymoo.core.evaluator:Evaluator")
    PR = repo.cls("pymoo.core.problem:Problem")
    afam, efam, pfam = AL.family(), EV.family(), PR.family()
    wrappers = [c for c in repo.classes.values() if c not in afam and c.lookup("infill") is not None]
    # wrappers that are mixed into the class of the algorithm at run time
    mixins = {c for c in repo.classes.values() if c not in afam and any(isinstance(k, Class) and k.name == "MetaAlgorithm" for k in c.mro)}
    afam = set(afam) | mixins
    rep.count("mixed_in_classes", len(mixins))
    for C in sorted(set(afam) | set(wrappers), key=lambda c: c.id):
        rep.count("algorithm_classes")
        seen, work = {}, []
        for r in ROOTS + (HOOKS if C in mixins else ()):
            f = C.lookup(r)
            if f is not None:
                rep.count("entry_points")
                seen[(f, C)] = None
                work.append((f, C))
        while work:
            f, K = work.pop()
            rep.count("function_contexts")
            for n in f.walk():
                if isinstance(n, (ast.AugAssign, ast.Assign, ast.AnnAssign)):
                    counter(repo, rep, afam, f, K, n, seen, C)
                if not isinstance(n, ast.Call):
                    continue
                rep.count("calls_examined")
                w = evaluates(repo, n, f, K, efam, pfam)
                if w:
                    rep.add("ask-evaluates", f"{owner(repo, f)} {w}", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n, 80)}` evaluates while {C.name} is only asked for candidates: {path(seen, (f, K))}")
                    continue
                fn = n.func
                if isinstance(fn, ast.Attribute):
                    own = isinstance(fn.value, ast.Name) and fn.value.id == repo.self_name(f) and K in afam
                    if (fn.attr in FINISH and own) or (fn.attr == "update" and isinstance(fn.value, ast.Attribute) and fn.value.attr == "termination"):
                        rep.add("ask-advances", f"{owner(repo, f)} {fn.attr}", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 60)}` finishes an iteration while {C.name} is only asked for candidates: {path(seen, (f, K))}")
                        continue
                if last(fn) == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value in ("n_iter", "n_gen") and \
                        any(isinstance(y, ast.Attribute) and y.attr in ("n_iter", "n_gen") for y in ast.walk(n.args[2])):
                    rep.add("ask-advances", f"{owner(repo, f)} {n.args[1].value}", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n, 60)}` advances the iteration counter while {C.name} is only asked for candidates: {path(seen, (f, K))}")
                nxt = list(repo.ctx_targets(n, f, K))
                if last(fn) in APPLY:             # a function handed over to be applied at once
                    nxt += [(g, K) for a in list(n.args) + [k.value for k in n.keywords] for g in applied(repo, f, a)]
                for t, k in nxt:
                    if isinstance(t, Func) and (t, k) not in seen:
                        seen[(t, k)] = (f, K)
                        work.append((t, k))
    if not getattr(repo, "mini", False):
        for k, m in [("algorithm_classes", 60), ("entry_points", 180), ("function_contexts", 5000), ("calls_examined", 30000)]:
            rep.floor(k, m)


def owner(repo, f):
    c = repo.enclosing_class(f)
    return c.id if c is not None else f.module.name


def path(seen, x):
    out = []
    while x is not None and len(out) < 8:
        out.append(x[0].qual)
        x = seen[x]
    return " <- ".join(out)


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""


def applied(repo, f, a):
    """the functions of the package a call argument names: a lambda, a nested function, a helper"""
    if isinstance(a, ast.Lambda):
        return [g for g in repo.funcs.values() if g.node is a]
    if isinstance(a, (ast.Name, ast.Attribute)):
        r = repo.resolve(a, f.module, f)
        if isinstance(r, Func):
            return [r]
        if isinstance(a, ast.Name):
            return [g for v in repo.local_assigns(f).get(a.id, []) if isinstance(v, ast.Lambda) for g in repo.funcs.values() if g.node is v]
    return []


def evaluates(repo, n, f, K, efam, pfam):
    fn = n.func
    if isinstance(fn, ast.Name):                  # ev = self.evaluator.eval; ev(...)
        vs = repo.local_assigns(f).get(fn.id) or []
        if len(vs) == 1 and isinstance(vs[0], ast.Attribute):
            fn = vs[0]
    if isinstance(fn, ast.Attribute):
        nm = last(fn.value)
        if fn.attr == "eval" and (nm.endswith("evaluator") or not repo.typeset(fn.value, f) or any(t in efam for t in repo.typeset(fn.value, f))) and not isinstance(
                repo.resolve(fn, f.module, f), Ext):
            return "eval"
        if fn.attr in EVALS and (nm == "problem" or nm.endswith("_problem") or any(t in pfam for t in repo.typeset(fn.value, f))):
            return fn.attr
    for t, k in repo.ctx_targets(n, f, K):
        if isinstance(t, Func) and t.cls is not None and last(n.func) == t.name:
            if t.name == "eval" and t.cls in efam:
                return "eval"
            if t.name in EVALS and t.cls in pfam:
                return t.name
    return None


def counter(repo, rep, afam, f, K, n, seen, C):
    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
    for t in ts:
        for x in ast.walk(t):
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value in ("n_iter", "n_gen") and last(x.value) == "__dict__":
                if isinstance(n, ast.AugAssign) or any(isinstance(y, (ast.Attribute, ast.Subscript)) and "n_iter" in unparse(y) for y in ast.walk(n.value or t)):
                    rep.add("ask-advances", f"{owner(repo, f)} {x.slice.value}", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n, 60)}` advances the iteration counter while {C.name} is only asked for candidates: {path(seen, (f, K))}")
            if isinstance(x, ast.Attribute) and x.attr in ("n_iter", "n_gen") and isinstance(x.ctx, ast.Store):
                if not (isinstance(x.value, ast.Name) and (x.value.id == "algorithm" or (x.value.id == repo.self_name(f) and K in afam))):
                    continue
                rep.count("counter_stores")
                if isinstance(n, ast.AugAssign) or any(isinstance(y, ast.Attribute) and y.attr in ("n_iter", "n_gen") for y in ast.walk(n.value or t)):
                    rep.add("ask-advances", f"{owner(repo, f)} {x.attr}", f"{f.module.rel}:{n.lineno} {f.qual}",
                            f"`{unparse(n, 60)}` advances the iteration counter while {C.name} is only asked for candidates: {path(seen, (f, K))}")


BASE = {"pymoo/core/evaluator.py": """
class Evaluator:
    def eval(self, problem, pop):
        return pop
""", "pymoo/core/problem.py": """
class Problem:
    def evaluate(self, X):
        return X
""", "pymoo/core/algorithm.py": """
from pymoo.core.evaluator import Evaluator
class Algorithm:
    def __init__(self):
        self.evaluator = Evaluator()
        self.n_iter = 0
    def setup(self, problem):
        self.problem = problem
        self._setup(problem)
    def ask(self):
        return self.infill()
    def infill(self):
        return self._infill()
    def advance(self, infills):
        self._advance(infills)
        self.n_iter += 1
    def next(self):
        infills = self.infill()
        self.evaluator.eval(self.problem, infills)
        self.advance(infills)
    def _setup(self, problem):
        pass
    def _infill(self):
        pass
    def _advance(self, infills):
        pass
"""}
SELFTESTS = [
    ("clean", {**BASE, "pymoo/algorithms/a.py": """
    from pymoo.core.algorithm import Algorithm
    class A(Algorithm):
        def _infill(self):
            return self._make()
        def _make(self):
            return 1
        def _advance(self, infills):
            self.evaluator.eval(self.problem, infills)
    """}, []),
    ("dirty", {**BASE, "pymoo/algorithms/a.py": """
    from pymoo.core.algorithm import Algorithm
    class A(Algorithm):
        def _infill(self):
            return self._make()
        def _make(self):
            return helper(self.evaluator, self.problem)
    def helper(ev, problem):
        return ev.eval(problem, 1)
    class B(Algorithm):
        def _setup(self, problem):
            problem.evaluate(1)
        def _infill(self):
            self.n_iter += 1
    class C(Algorithm):
        def _infill(self):
            self.next()
    class D(Algorithm):
        def _infill(self):
            self.pop.apply(lambda ind: self.evaluator.eval(self.problem, ind))
    class E(Algorithm):
        def _infill(self):
            setattr(self, "n_iter", self.n_iter + 1)
    class MetaAlgorithm:
        pass
    class F(MetaAlgorithm):
        def _infill(self):
            self.evaluator.eval(self.problem, 1)
            return super()._infill()
        def _advance(self, infills):
            self.evaluator.eval(self.problem, 1)
    class G(Algorithm):
        def _setup(self, problem):
            self.fun = lambda x: self.evaluator.eval(problem, x)
    """}, [("ask-evaluates", "pymoo.algorithms.a:D eval"), ("ask-advances", "pymoo.algorithms.a:E n_iter"), ("ask-evaluates", "pymoo.algorithms.a:F eval"), ("ask-evaluates", "pymoo.algorithms.a eval"), ("ask-evaluates", "pymoo.algorithms.a:B evaluate"), ("ask-advances", "pymoo.algorithms.a:B n_iter"),
           ("ask-advances", "pymoo.algorithms.a:C next")]),
]
