"""P06 - watching a run does not change it."""
import ast
from sa.model import *
from sa.effects import Effects
from sa.util import *

EXPLANATION = (
    "Non-interference analysis. Every entry point of every Callback, Output, Column, Display and Termination class (and recorder, animation) receives the running algorithm. "
    "From there the algorithm and everything reachable from it (populations, individuals, problem, termination, evaluator) is followed through assignments, calls and "
    "containers (alias and mutation analysis); no function that receives it may store into it, mutate a container of it, draw from its generator or evaluate through its evaluator. "
    "Switches that turn observation on (verbose, progress, save_history, display, callback, output) may only guard code that reports: no assignment to run state, no "
    "evaluation, no random draw and no early exit may depend on them."
)
ASSUMPTIONS = ["methods of Problem that compute a front, an ideal point, bounds or values do not change the run (P07, P10 decide the problems)",
               "callbacks written by the user are outside the package"]
ENTRY = {"update", "_update", "notify", "initialize", "__call__", "save", "do"}
FAM = ("pymoo.core.callback:Callback", "pymoo.core.termination:Termination", "pymoo.util.display.column:Column")
PROBLEM_READS = {"pareto_front", "pareto_set", "ideal_point", "nadir_point", "bounds", "evaluate", "_calc_pareto_front", "_calc_pareto_set", "has_bounds",
                 "has_constraints", "do", "name", "__init__"}
# (class, attribute or method) that changes the run because that is its documented purpose
BY_DESIGN = {("pymoo.problems.dyn:TimeSimulation", "tic"),                                        # simulates the time of a dynamic problem
             ("pymoo.util.running_metric:RunningMetricAnimation", "force_termination")}           # the user pressed the key to stop
SWITCHES = {"verbose", "progress", "save_history", "display", "callback", "output", "history"}


def run(repo, rep):
    rep.rule("observer-writes", "an observer entry point modifies the algorithm it is given, or something reachable from it")
    rep.rule("observer-draws", "an observer draws from (or hands out) the generator of the run")
    rep.rule("observer-evaluates", "an observer spends evaluations of the run")
    rep.rule("observer-keeps", "an observer modifies run data it keeps a reference to")
    rep.rule("switch-guards-state", "run state, evaluation, randomness or control flow depends on an observation switch")
    eff = Effects(repo)
    fams = set()
    for n in FAM:
        fams |= set(repo.cls(n).family())
    rep.count("observer_classes", len(fams))
    PF = set(repo.cls("pymoo.core.problem:Problem").family())
    entries = [(f, c) for c in sorted(fams, key=lambda c: c.id) for f in c.methods.values() if f.name in ENTRY and data_params(repo, f)]
    byfunc = {}
    for (f, spec), L in eff.direct.items():
        byfunc.setdefault(f, []).extend(L)
    calls = {}
    for (f, spec), L in eff.calls.items():
        calls.setdefault(f, []).extend(L)
    for f, c in entries:
        rep.count("entry_points")
        work = [(f, frozenset(data_params(repo, f)))]
        seen = {work[0]: None}
        while work:
            g, ps = work.pop()
            rep.count("function_contexts")
            for roots, what, node, val, via in byfunc.get(g, ()):
                rep.count("writes_examined")
                hit = [(r, p) for r, p in roots if r[0] == "p" and r[1] in ps]
                if not hit or harmless(repo, g, node, what, hit):
                    continue
                nm = what.split(":")[-1] if ":" in what else (hit[0][1][-1] if hit[0][1] else what)
                own = blame(repo, seen, (g, ps), fams)
                if (own, nm) in BY_DESIGN:
                    continue
                rep.add("observer-writes", f"{own} {nm}", f"{g.module.rel}:{getattr(node, 'lineno', '?')} {g.qual}",
                        f"`{unparse(node, 70)}` modifies what {c.name}.{f.name} only observes ({', '.join(sorted(r[1] + ''.join('.' + str(x) for x in p) for r, p in hit)[:2])}): {path(seen, (g, ps))}")
            draws(repo, rep, g, ps, blame(repo, seen, (g, ps), fams) or c.id, c, f, seen)
            for node, t, b in calls.get(g, ()):
                rep.count("calls_followed")
                q = frozenset(p for p, v in b.items() if v is not None and any(r[0] == "p" and r[1] in ps for r, _ in (v.own | v.elem)))
                if not q:
                    continue
                if t.cls is not None and t.cls in PF:
                    if t.name in PROBLEM_READS:
                        continue
                    if (blame(repo, seen, (g, ps), fams), t.name) in BY_DESIGN:
                        continue
                if t.cls is not None and t.cls in fams and t.name in ENTRY and not (isinstance(node.func, ast.Attribute) and (
                        is_super(node.func.value) or isinstance(node.func.value, ast.Name) and node.func.value.id == repo.self_name(g))):
                    continue                    # another observer: judged on its own
                if t.cls is not None and t.cls.name == "Evaluator" and t.name in ("eval", "_eval"):
                    rep.add("observer-evaluates", blame(repo, seen, (g, ps), fams) or c.id, f"{g.module.rel}:{node.lineno} {g.qual}",
                            f"`{unparse(node, 70)}` spends evaluations of the run in {c.name}.{f.name}")
                    continue
                if t.name == "__init__" and t.cls is not None and not isinstance(node.func, ast.Attribute):
                    pass
                k = (t, q)
                if k not in seen:
                    seen[k] = (g, ps)
                    work.append(k)
    keeps(repo, eff, rep, fams)
    switches(repo, rep, fams)
    if not getattr(repo, "mini", False):
        for k, m in [("observer_classes", 35), ("entry_points", 40), ("function_contexts", 60), ("switch_tests", 4)]:
            rep.floor(k, m)


def is_super(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super"


def data_params(repo, f):
    ps = f.params
    if ps and ps[0] == repo.self_name(f):
        ps = ps[1:]
    return [p for p in ps if p not in ("kwargs", "args")]


def harmless(repo, g, node, what, hit):
    return False


def blame(repo, seen, x, fams):
    """the observer class closest to the construct"""
    while x is not None:
        c = repo.enclosing_class(x[0])
        if c is not None and c in fams:
            return c.id
        x = seen[x]


def path(seen, x):
    out = []
    while x is not None and len(out) < 6:
        out.append(x[0].qual)
        x = seen[x]
    return " <- ".join(out)


def draws(repo, rep, g, ps, cid, c, f, seen):
    la = repo.local_assigns(g)

    def from_data(e, depth=0):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        if not isinstance(e, ast.Name):
            return False
        if e.id in ps:
            return True
        vs = la.get(e.id) or []
        return depth < 4 and any(isinstance(v, ast.expr) and from_data(v, depth + 1) for v in vs)
    for n in g.walk():
        if isinstance(n, ast.Attribute) and n.attr == "random_state" and isinstance(n.ctx, ast.Load) and from_data(n.value):
            par = parents(g.module).get(id(n))
            if isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr in ("deepcopy", "copy"):
                continue
            if isinstance(par, ast.Compare):
                continue
            rep.add("observer-draws", cid, f"{g.module.rel}:{n.lineno} {g.qual}",
                    f"`{unparse(n)}`: {c.name}.{f.name} uses the generator of the run: {path(seen, (g, ps))}")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "eval" and from_data(n.func.value) and \
                (isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "evaluator" or isinstance(n.func.value, ast.Name) and "evaluator" in n.func.value.id):
            rep.add("observer-evaluates", cid, f"{g.module.rel}:{n.lineno} {g.qual}", f"`{unparse(n, 70)}` spends evaluations of the run in {c.name}.{f.name}")


def keeps(repo, eff, rep, fams):
    """self.<attr> = run data (by reference) in one method, in-place change of self.<attr> in another"""
    for c in sorted(fams, key=lambda c: c.id):
        held = {}
        for f in c.methods.values():
            if f.name == "__init__":
                continue
            dp = set(data_params(repo, f))
            for (g, spec), L in eff.stores.items():
                if g is f:
                    for b, attr, v, node in L:
                        if (("p", repo.self_name(f)), ()) in b.own and any(r[0] == "p" and r[1] in dp for r, _ in v.own):
                            held[attr] = f
        for f in c.methods.values():
            for (g, spec), s in eff.sum.items():
                if g is not f:
                    continue
                for k, mu in s.mut.items():
                    if mu.root == ("p", repo.self_name(f)) and mu.path and mu.path[0] in held:
                        rep.count("kept_references")
                        rep.add("observer-keeps", f"{c.id} {mu.path[0]}", mu.loc, f"{c.name}.{f.name} modifies run data kept in self.{mu.path[0]}")
        rep.count("kept_attributes", len(held))
        for a in held:
            rep.sample("kept", f"{c.id}.{a}")


def switch_names(repo, test, f, own, depth=0):
    out = set()
    la = repo.local_assigns(f)
    for n in ast.walk(test):
        if isinstance(n, ast.Name) and depth < 3 and len(la.get(n.id) or []) == 1 and isinstance(la[n.id][0], ast.expr):
            out |= switch_names(repo, la[n.id][0], f, own, depth + 1)
    for n in ast.walk(test):
        if isinstance(n, ast.Attribute) and n.attr in SWITCHES and isinstance(n.value, ast.Name) and n.value.id in own:
            out.add(n.attr)
        elif isinstance(n, ast.Name) and n.id in ("verbose", "progress", "save_history") and n.id in f.all_params:
            out.add(n.id)
    return out


def switches(repo, rep, fams):
    AL = repo.cls("pymoo.core.algorithm:Algorithm")
    EV = repo.cls("pymoo.core.evaluator:Evaluator")
    for c in sorted(set(AL.family()) | set(EV.family()), key=lambda c: c.id):
        for f in c.methods.values():
            own = {repo.self_name(f)}
            for n in f.walk():
                if isinstance(n, (ast.If, ast.While)):
                    sw = switch_names(repo, n.test, f, own)
                    if not sw:
                        continue
                    rep.count("switch_tests")
                    rep.sample("switch", f"{f.module.rel}:{n.lineno} {f.qual}: {unparse(n.test)}")
                    for st in n.body + n.orelse:
                        w = affects(repo, st, f, own)
                        if w and not (f.name == "__init__" and False):
                            rep.add("switch-guards-state", f"{f.id} {','.join(sorted(sw))}", f"{f.module.rel}:{w.lineno} {f.qual}",
                                    f"`{unparse(w, 70)}` depends on {', '.join(sorted(sw))} (`{unparse(n.test, 50)}`)")
                elif isinstance(n, ast.IfExp) and switch_names(repo, n.test, f, own):
                    rep.count("switch_tests")
                    st = statement_of(f.module, n)[0]
                    if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return)) and affects(repo, st, f, own):
                        rep.add("switch-guards-state", f"{f.id} {','.join(sorted(switch_names(repo, n.test, f, own)))}", f"{f.module.rel}:{n.lineno} {f.qual}",
                                f"`{unparse(n, 70)}` selects run state by an observation switch")


def affects(repo, st, f, own):
    """a construct of st that changes the run"""
    for n in ast.walk(st):
        if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise)):
            return n
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r = n
            while isinstance(r, (ast.Attribute, ast.Subscript)) and not (isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id in own):
                r = r.value
            if isinstance(r, ast.Attribute) and r.attr not in SWITCHES:
                return n
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r = n.value
            while isinstance(r, (ast.Attribute, ast.Subscript)) and not (isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id in own):
                r = r.value
            if isinstance(r, ast.Attribute) and r.attr not in SWITCHES:
                return n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ("eval", "evaluate", "next", "advance", "tell", "infill", "ask", "setup", "_setup", "_initialize", "_infill", "_advance", "terminate"):
                if isinstance(n.func.value, ast.Attribute) and n.func.value.attr in SWITCHES:
                    continue
                return n
            if n.func.attr == "set" and not (isinstance(n.func.value, ast.Attribute) and n.func.value.attr in SWITCHES):
                return n
        if isinstance(n, ast.Attribute) and n.attr == "random_state":
            return n
    return None


BASE = {"pymoo/core/callback.py": """
class Callback:
    def __init__(self):
        self.data = {}
    def notify(self, algorithm):
        pass
    def update(self, algorithm):
        pass
    def __call__(self, algorithm):
        self.notify(algorithm)
        self.update(algorithm)
""", "pymoo/core/termination.py": """
class Termination:
    def update(self, algorithm):
        self.perc = self._update(algorithm)
    def _update(self, algorithm):
        return 0.0
""", "pymoo/util/display/column.py": """
class Column:
    def update(self, algorithm):
        pass
""", "pymoo/core/problem.py": """
class Problem:
    def evaluate(self, X):
        return X
    def pareto_front(self):
        self.cache = 1
""", "pymoo/core/evaluator.py": """
class Evaluator:
    def eval(self, problem, pop):
        if self.callback:
            self.callback(pop)
        return pop
""", "pymoo/core/algorithm.py": """
class Algorithm:
    def __init__(self, evaluator, verbose=False):
        self.evaluator = evaluator
        self.verbose = verbose
    def _post_advance(self):
        if self.verbose:
            print(self.n_iter)
        if self.save_history:
            self.history.append(1)
"""}
SELFTESTS = [
    ("clean", {**BASE, "pymoo/a.py": """
    from pymoo.core.callback import Callback
    class A(Callback):
        def notify(self, algorithm):
            self.last = algorithm.pop
            self.data["n"] = algorithm.n_iter
            algorithm.problem.pareto_front()
    """}, []),
    ("dirty", {**BASE, "pymoo/a.py": """
    from pymoo.core.callback import Callback
    from pymoo.core.termination import Termination
    from pymoo.core.algorithm import Algorithm
    class A(Callback):
        def notify(self, algorithm):
            helper(algorithm.pop)
    def helper(pop):
        for ind in pop:
            ind.X = 0
    class B(Termination):
        def _update(self, algorithm):
            rs = algorithm.random_state
            return rs.random()
    class C(Callback):
        def update(self, algorithm):
            algorithm.evaluator.eval(algorithm.problem, algorithm.pop)
    class E(Termination):
        def _update(self, algorithm):
            self.late()
            self.seen = algorithm.pop
            return 0.0
        def late(self):
            self.seen[0].X = 1
    class D(Algorithm):
        def _advance(self, infills=None):
            if self.verbose:
                self.pop = infills
    """}, [("observer-writes", "pymoo.a:A X"), ("observer-draws", "pymoo.a:B"), ("observer-evaluates", "pymoo.a:C"), ("observer-keeps", "pymoo.a:E seen"),
           ("switch-guards-state", "pymoo.a:D._advance verbose")]),
]
