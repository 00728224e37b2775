"""P10 - the evaluation of a solution depends on that solution alone."""
import ast
import sys
from sa.model import *
from sa.util import *
from sa.effects import Effects, Mut
from sa.problems import explore
from sa.shape import Lin, A, N, has_batch
from checks.p11 import wrapper, given

EXPLANATION = (
    "Every problem of the package with an evaluation of its own is constructed and evaluated symbolically on a batch of N designs (see P11), and for every array the interpreter keeps which axis stands for the designs. "
    "Whatever combines different rows of the batch - a reduction, product, sort or cumulation along that axis (or along no axis), a reshape that shifts rows, a fixed row that is used for others, a loop that carries a value from one row "
    "to the next, a broadcast of rows against rows, a decision on all rows at once - marks the value, and no marked value may end up in the objectives or constraints. Besides, the effects of every evaluation, with everything it calls, are "
    "computed: it may not write to the problem or to module-level state, and no random number, clock or environment value may be read in it."
)
ASSUMPTIONS = [
    "evaluations whose data flow the interpreter cannot follow are counted as undecided and not judged for batch mixing",
    "functions of libraries outside the package have no memory and, numpy's random generators apart, no hidden inputs",
    "the time of a dynamic problem is a parameter: it is changed by the user, not by evaluating",
]
IMPURE = ("numpy.random.", "random.", "time.", "datetime.", "os.environ", "os.getenv", "uuid.", "secrets.")


def run(repo, rep):
    rep.rule("rows-mixed", "the value computed for one solution depends on other solutions of the same batch")
    rep.rule("fixed-row", "the value of one particular row of the batch is used for all of them")
    rep.rule("problem-modified", "an evaluation writes to the problem")
    rep.rule("state-modified", "an evaluation writes to module-level state")
    rep.rule("hidden-input", "an evaluation reads random numbers, a clock or the environment")
    base = repo.cls("Problem")
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(max(lim, 8000))
    try:
        for c in sorted(base.family(), key=lambda c: c.id):
            batch(repo, rep, base, c)
    finally:
        sys.setrecursionlimit(lim)
    purity(repo, rep, base)
    if not getattr(repo, "mini", False):
        for k, m in [("problems", 120), ("values_followed", 250), ("batch_evaluations", 180), ("evaluation_methods", 90), ("functions_in_evaluations", 130)]:
            rep.floor(k, m)


def batch(repo, rep, base, c):
    wrap = wrapper(c)
    m = c.lookup("do" if wrap else "_evaluate")
    if not isinstance(m, Func) or m.cls is base or wrap and m.cls is not c:
        return
    rep.count("wrappers" if wrap else "problems")
    try:
        runs, gave = explore(repo, base, c, lambda r: r.evaluate_wrapper(c, m) if wrap else r.evaluate(c, m))
    except Exception as e:
        rep.count("given_up")
        rep.sample("given up", f"{c.id}: {type(e).__name__}")
        return
    if gave:
        rep.count("given_up")
        rep.sample("given up", f"{c.id}: {gave}")
    for r in runs:
        if r.dead:
            continue
        if getattr(r, "single", False):
            rep.count("single_evaluations")
            continue
        rep.count("batch_evaluations")
        for k, v in r.final.items():
            if wrap and k not in ("F", "G", "H"):
                continue
            for p in pieces(v):
                if p.k == "unk" or p.k == "arr" and p.shape is None:
                    rep.count("values_undecided")
                    rep.sample("undecided", f"{c.name} {k}{given(r)}", limit=30)
                else:
                    rep.count("values_followed")
                for fid, line, text in sorted(p.mix, key=str):
                    f = repo.funcs.get(fid)
                    rel = f.module.rel if f else c.module.rel
                    rep.add("rows-mixed", f"{fid}|{k}", f"{rel}:{line} {fid.split(':')[-1]}", f"`{text}` combines different solutions of the batch, and out['{k}'] of {c.name} depends on it{given(r)}")
                left = [x for x in p.rows]
                if left and p.k != "unk":
                    rep.add("fixed-row", f"{c.id}.{k}", f"{c.module.rel}:{m.lineno} {m.qual}", f"out['{k}'] depends on row {', '.join(str(x) for x in sorted(left, key=str)[:3])} of the batch{given(r)}")


def pieces(v):
    if v.k == "list":
        for p in (v.items if v.items is not None else [v.elem] if v.elem is not None else []):
            yield from pieces(p)
    else:
        yield v


def evaluations(base):
    out = {}
    for c in base.family():
        for nm in ("_evaluate", "do") if wrapper(c) else ("_evaluate",):
            m = c.methods.get(nm)
            if isinstance(m, Func) and c is not base:
                out[m.id] = m
    return [out[k] for k in sorted(out)]


def purity(repo, rep, base):
    eff = Effects(repo)
    seen = {}
    for m in evaluations(base):
        rep.count("evaluation_methods")
        slf = m.args[0] if m.args else None
        for k, mu in sorted(eff.summary(m, (), (m, ())).mut.items(), key=str):
            root = mu.root
            o = mu
            while getattr(o, "via", None) is not None and isinstance(o.via, Mut):
                o = o.via
            where = o.func.id if getattr(o, "func", None) is not None else m.id
            path = ".".join([str(x) for x in o.path] + [str(o.what)])
            if m.name == "do" and root[0] == "p" and root[1] == slf and mu.path:
                continue                # the problem that is wrapped, judged by its own evaluation, or a component of the wrapper
            if root[0] == "p" and root[1] == slf:
                rep.add("problem-modified", f"{where}|{path}", str(o.loc), f"evaluating {m.qual} changes self.{path}")
            elif root[0] == "g" and m.name != "do":     # a wrapper can switch a back-end on while it evaluates
                rep.add("state-modified", f"{where}|{root[1]}", str(o.loc), f"evaluating {m.qual} changes {root[1]} ({mu.what})")
        todo = [m]
        while todo:
            f = todo.pop()
            if f.id in seen:
                continue
            seen[f.id] = m
            for n in f.walk():
                if isinstance(n, ast.Call):
                    for t in repo.resolve_call(n, f, fallback=False):
                        if isinstance(t, Func):
                            todo.append(t)
                        elif isinstance(t, Class):
                            i = t.lookup("__init__")
                            if isinstance(i, Func):
                                todo.append(i)
                        elif isinstance(t, Ext) and t.path.startswith(IMPURE):
                            rep.add("hidden-input", f"{f.id}|{t.path}", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n, 60)}` is part of the evaluation of {m.qual}")
            todo.extend(g for g in f.inner.values() if g.id not in seen)
    rep.count("functions_in_evaluations", len(seen))


MINI = """
    class Problem:
        def __init__(self, n_var=-1, n_obj=1, n_ieq_constr=0, n_eq_constr=0, xl=None, xu=None, vtype=None, elementwise=False, **kwargs):
            pass
        def _evaluate(self, x, out, *args, **kwargs):
            pass
        def _calc_pareto_front(self):
            pass
    """


def mini(body):
    return {"pymoo/core/problem.py": MINI, "pymoo/problems/a.py": """
    import numpy as np
    import time
    from pymoo.core.problem import Problem

    COUNT = []


    class A(Problem):
        def __init__(self, n_var=3):
            super().__init__(n_var=n_var, n_obj=2, xl=0, xu=1)

""" + body}


SELFTESTS = [
    ("per-solution", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            f1 = x[:, 0]
            g = 1 + np.sum(x[:, 1:], axis=1)
            out["F"] = np.column_stack([f1, g * (1 - f1 / g)])
    """), []),
    ("row-loop", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            F = np.zeros((len(x), 2))
            for k in range(len(x)):
                F[k, 0] = x[k].sum()
                F[k, 1] = max(x[k])
            out["F"] = F
    """), []),
    ("whole-sum", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            g = 1 + np.sum(x[:, 1:])
            out["F"] = np.column_stack([x[:, 0], g * x[:, 1]])
    """), [("rows-mixed", "pymoo.problems.a:A._evaluate|F")]),
    ("column-sum", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            z = x - x.mean(axis=0)
            out["F"] = np.column_stack([z[:, 0], z[:, 1]])
    """), [("rows-mixed", "pymoo.problems.a:A._evaluate|F")]),
    ("carried", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            F, best = [], 0
            for row in x:
                best = max(best, row[0])
                F.append([row[0], best])
            out["F"] = np.array(F)
    """), [("rows-mixed", "pymoo.problems.a:A._evaluate|F")]),
    ("first-row", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = np.column_stack([x[:, 0], x[:, 1] + x[0, 1]])
    """), [("fixed-row", "pymoo.problems.a:A.F")]),
    ("size", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            f = x[:, 1] if len(x) > 1 else x[:, 0]
            out["F"] = np.column_stack([x[:, 0], f])
    """), [("rows-mixed", "pymoo.problems.a:A._evaluate|F")]),
    ("wrapper", {**mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = np.column_stack([x[:, 0], x[:, 1]])
    """), "pymoo/problems/w.py": """
    from pymoo.core.problem import Problem
    class Meta:
        def __init__(self, object):
            self.__object__ = object
    class W(Meta, Problem):
        def __init__(self, problem):
            super().__init__(problem)
            self.calls = 0
        def do(self, X, return_values_of, *args, **kwargs):
            self.calls = self.calls + 1
            return self.__object__.do(X, return_values_of, *args, **kwargs)
    """}, [("problem-modified", "pymoo.problems.w:W.do|attr:calls")]),
    ("impure", mini("""
        def _evaluate(self, x, out, *args, **kwargs):
            self.calls = 1
            COUNT.append(1)
            out["F"] = np.column_stack([x[:, 0], x[:, 1] + time.time()])
    """), [("problem-modified", "pymoo.problems.a:A._evaluate|attr:calls"), ("state-modified", "pymoo.problems.a:A._evaluate|pymoo.problems.a.COUNT"),
            ("hidden-input", "pymoo.problems.a:A._evaluate|time.time")]),
]
