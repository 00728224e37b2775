"""P11 - problems return what they declare."""
import ast
import sys
from sa.model import *
from sa.util import *
from sa.problems import Run, explore
from sa.shape import V, Lin, A, N, UNK, NONE, Stop, has_batch, unparse

EXPLANATION = (
    "Every problem of the package with an evaluation of its own is constructed and evaluated symbolically, once for each combination of the decisions its parameters leave open: the number of variables, of solutions (N) and every "
    "numeric parameter stay symbols. The interpreter follows helpers, inherited and super calls, loops over symbolic ranges, lists filled in loops, slicing, broadcasting, reductions and stacking, and so knows the shape of what "
    "ends up in out['F'], out['G'] and out['H'] - or says it does not. These shapes are compared with what the constructor declared, the bounds with the number of variables, and the shapes of the analytical fronts and sets with the "
    "objectives and variables. The same is done for the wrappers around other problems."
)
ASSUMPTIONS = [
    "numeric parameters of a constructor are integers of at least one where the default says so, and a design has at least one variable",
    "a batch has N >= 1 solutions; numpy functions behave as documented",
    "shapes the interpreter cannot determine are counted as undecided and not judged",
]
KEYS = {"F": "n_obj", "G": "n_ieq_constr", "H": "n_eq_constr"}
WHAT = {"n_obj": "objectives", "n_ieq_constr": "inequality constraints", "n_eq_constr": "equality constraints"}


def run(repo, rep):
    rep.rule("objectives-missing", "an evaluation can end without out['F']")
    rep.rule("constraints-missing", "the problem declares constraints which an evaluation does not provide")
    rep.rule("count", "the number of columns provided is not the number declared")
    rep.rule("transposed", "the columns are stored as rows, the values of different solutions and objectives are interchanged")
    rep.rule("shape-error", "an operation of the evaluation gets operands of incompatible shapes")
    rep.rule("bounds", "the bounds do not have one value for each variable")
    rep.rule("front", "the analytical front or set has not one column for each objective or variable")
    rep.rule("never-evaluates", "every way of constructing and evaluating the problem raises")
    base = repo.cls("Problem")
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(max(lim, 8000))
    try:
        for c in sorted(base.family(), key=lambda c: c.id):
            problem(repo, rep, base, c)
    finally:
        sys.setrecursionlimit(lim)
    if not getattr(repo, "mini", False):
        for k, m in [("problems", 120), ("evaluations", 220), ("objectives_decided", 200), ("constraints_decided", 60), ("fronts_decided", 150), ("bounds_decided", 150), ("wrappers", 4)]:
            rep.floor(k, m)


def wrapper(c):
    return any(getattr(b, "name", "") == "Meta" for b in c.mro)


def problem(repo, rep, base, c):
    m = c.lookup("_evaluate")
    if wrapper(c):
        d = c.lookup("do")
        if isinstance(d, Func) and d.cls is c:
            rep.count("wrappers")
            evaluation(repo, rep, base, c, lambda r: r.evaluate_wrapper(c, d), True)
        return
    if not isinstance(m, Func) or m.cls is base:
        return
    rep.count("problems")
    if evaluation(repo, rep, base, c, lambda r: r.evaluate(c, m), False):
        for nm, key in (("_calc_pareto_front", "n_obj"), ("_calc_pareto_set", "n_var")):
            g = c.lookup(nm)
            if isinstance(g, Func) and g.cls is not base:
                front(repo, rep, base, c, g, nm, key)


def lin(v):
    return v.lin if v is not None and v.k == "num" else None


def columns(r, v, single):
    """(number of columns per solution or None if undecided, transposed)"""
    if v.k == "list" and not single:
        if v.items is None:
            if v.elem is None or v.length is None:
                return None, False
            k, t = columns(r, v.elem, single)
            return (v.length.times(k.k) if k is not None and not k.c else None), t
        tot = Lin()
        for e in v.items:
            k, t = columns(r, e, single)
            if k is None or t:
                return None, t
            tot = tot + k
        return tot, False
    if single:
        if v.k == "num":
            return Lin(k=1), False
        if v.k == "list":
            n = r.lengthof(v)
            if v.items is not None and not all(e.k == "num" or e.k == "arr" and e.shape == () for e in v.items):
                return None, False
            if v.items is None and (v.elem is None or v.elem.k != "num"):
                return None, False
            return n, False
        if v.k == "arr" and v.shape is not None:
            return r.total(v.shape) if v.shape else Lin(k=1), False
        return None, False
    if v.k != "arr" or v.shape is None or any(d is None for d in v.shape):
        return None, False
    sh = v.shape
    n = A(N)
    if len(sh) == 1:
        return (Lin(k=1), False) if r.same(sh[0], n) else (None, False)
    if r.same(sh[0], n):
        k = r.total(sh[1:])
        return k, False
    if len(sh) == 2 and r.same(sh[1], n) and not has_batch(sh[0]):
        return sh[0], not (not sh[0].c and sh[0].k == 1)
    return None, False


def given(r):
    ds = [f"{n if t else 'not ' + n}" for n, t in ((r.names[i], t) for i, t in enumerate(r.taken))]
    return f" (with {', '.join(ds[:4])})" if ds else ""


def evaluation(repo, rep, base, c, then, wrap):
    try:
        runs, gave = explore(repo, base, c, then)
    except Exception as e:
        rep.count("given_up")
        rep.sample("given up", f"{c.id}: {type(e).__name__}")
        return False
    if gave:
        rep.count("given_up")
        rep.sample("given up", f"{c.id}: {gave}")
    live = [r for r in runs if not r.dead]
    loc = f"{c.module.rel}:{c.node.lineno} {c.qual}"
    if not live and not gave and runs and not any(r.unknown for r in runs):
        rep.add("never-evaluates", c.id, loc, "constructing or evaluating the problem raises whatever the parameters are")
    for r in live:
        rep.count("evaluations")
        single = getattr(r, "single", False)
        n_var = lin(r.attr("n_var"))
        for rule, where, what in r.issues:
            rep.add("shape-error", f"{where[0]}|{where[2]}" if isinstance(where, tuple) else str(where), f"{loc} at {where}", f"{what}{given(r)}")
        for b in ("xl", "xu"):
            v = r.attr(b)
            if v is not None and v.k == "arr" and v.shape is not None and len(v.shape) == 1 and v.shape[0] is not None and n_var is not None:
                rep.count("bounds_decided")
                if not r.same(v.shape[0], n_var):
                    rep.add("bounds", f"{c.id}.{b}", loc, f"{b} has {text(v.shape[0])} values, the problem {text(n_var)} variables{given(r)}")
        for k, decl in KEYS.items():
            v = r.final.get(k)
            want = lin(r.attr(decl))
            if v is None and r.final.get("**open") is not None:
                rep.count("undecided")
                continue
            none = v is None or v.k == "none"
            if none or v.may:
                if k == "F":
                    rep.add("objectives-missing", c.id, loc, f"out['F'] is {'not' if none else 'not always'} assigned{given(r)}")
                elif (none or not wrap) and want is not None and positive(r, want):
                    rep.add("constraints-missing", f"{c.id}.{k}", loc, f"{text(want)} {WHAT[decl]} are declared but out['{k}'] is {'not' if none else 'not always'} assigned{given(r)}")
                elif none:
                    rep.count("constraints_decided")
                continue
            got, tr = columns(r, v, single)
            if got is None or want is None:
                rep.count("undecided")
                rep.sample("undecided", f"{c.name} {k}{given(r)}", limit=30)
                continue
            rep.count("objectives_decided" if k == "F" else "constraints_decided")
            rep.sample("shapes", f"{c.name}: {k} has {got} column(s), declared {want}{given(r)}", limit=12)
            if wrap and v.k == "arr" and v.shape is not None and len(v.shape) != 2:
                rep.add("count", f"{c.id}.{k}|{len(v.shape)}-dimensional", loc, f"the wrapper returns {len(v.shape)}-dimensional values for {k}, not one row for each solution{given(r)}")
            elif tr and (not r.same(got, Lin(k=1))):
                rep.add("transposed", f"{c.id}.{k}", loc, f"out['{k}'] has one row for each of the {WHAT[decl]}, not one for each solution{given(r)}")
            elif not r.same(got, want):
                rep.add("count", f"{c.id}.{k}|{text(got)} for {text(want)}", loc, f"out['{k}'] has {text(got)} columns, the problem declares {text(want)} {WHAT[decl]}{given(r)}")
    return bool(live)


def text(e):
    """a linear expression as people write it"""
    t = " + ".join([f"{x}*{a}" if x != 1 else a for a, x in sorted(e.c.items())] + ([str(e.k)] if e.k or not e.c else []))
    return t.replace("+ -", "- ")


def positive(r, e):
    """the number can be positive; what a foreign object says about itself is not guessed"""
    return e.k > 0 if not e.c else r.ge(e - 1) or not any("obj#" in a for a in e.c) and not r.ge(e.times(-1))


def front(repo, rep, base, c, g, nm, key):
    try:
        runs, gave = explore(repo, base, c, lambda r: r.front(c, g))
    except Exception as e:
        rep.count("fronts_given_up")
        return
    for r in runs:
        if r.dead:
            continue
        for rule, where, what in r.issues:
            if rule == "misfit":
                rep.add("shape-error", f"{where[0]}|{where[2]}", f"{g.module.rel}:{g.lineno} {g.qual} at {where}", f"{what}{given(r)}")
        v = r.final
        want = lin(r.attr(key))
        if v.k == "list":
            v = r.toarray(v)
        if v.k == "num":
            v = V("arr", shape=(Lin(k=1),))     # one value of one objective
        if v.k == "arr" and v.shape == ():
            v = v.but(shape=(Lin(k=1),))
        if v.k != "arr" or v.shape is None or want is None:
            rep.count("fronts_none" if v.k == "none" else "fronts_undecided")
            rep.sample("front undecided", f"{c.name}.{nm} {v} {given(r)}", limit=400) if v.k != "none" else None
            continue
        got = v.shape[-1] if len(v.shape) == 2 else v.shape[0] if len(v.shape) == 1 else None
        if got is None:
            if len(v.shape) == 2 and v.shape[0] is not None and r.same(v.shape[0], want) and not (not want.c and want.k < 2):
                rep.add("front", f"{c.id}.{nm}", f"{g.module.rel}:{g.lineno} {g.qual}", f"{nm} returns one row for each of the {text(want)} {'objectives' if key == 'n_obj' else 'variables'}, not one column{given(r)}")
            rep.count("fronts_undecided")
            continue
        rep.count("fronts_decided")
        if not r.same(got, want):
            rep.add("front", f"{c.id}.{nm}", f"{g.module.rel}:{g.lineno} {g.qual}", f"{nm} returns {text(got)} columns for {text(want)} {'objectives' if key == 'n_obj' else 'variables'}{given(r)}")


MINI = """
    class Problem:
        def __init__(self, n_var=-1, n_obj=1, n_ieq_constr=0, n_eq_constr=0, xl=None, xu=None, vtype=None, elementwise=False, **kwargs):
            pass
        def _evaluate(self, x, out, *args, **kwargs):
            pass
        def _calc_pareto_front(self):
            pass
    """


def mini(init, body, front=""):
    return {"pymoo/core/problem.py": MINI, "pymoo/problems/a.py": """
    import numpy as np
    from pymoo.core.problem import Problem


    class A(Problem):
        def __init__(self, n_var=3, n_obj=2):
            super().__init__(""" + init + """)

        def _evaluate(self, x, out, *args, **kwargs):
            f1, f2 = x[:, 0], np.sum(x, axis=1)
            g = f1 - 1
""" + "".join(f"            {line}\n" for line in body.split("; ")) + front}


SELFTESTS = [
    ("declared", mini("n_var=n_var, n_obj=2, n_ieq_constr=1, xl=0, xu=np.ones(n_var)", "out['F'] = np.column_stack([f1, f2]); out['G'] = g",
                      "\n        def _calc_pareto_front(self):\n            t = np.linspace(0, 1, 9)\n            return np.array([t, 1 - t]).T\n"), []),
    ("symbolic", mini("n_var=n_var, n_obj=n_obj", "out['F'] = np.column_stack([f2 * x[:, i] for i in range(self.n_obj)])"), []),
    ("one-short", mini("n_var=n_var, n_obj=n_obj", "out['F'] = np.column_stack([f2 * x[:, i] for i in range(1, self.n_obj)])"), [("count", "pymoo.problems.a:A.F|n_obj - 1 for n_obj")]),
    ("transposed", mini("n_var=n_var, n_obj=2", "out['F'] = np.array([f1, f2])"), [("transposed", "pymoo.problems.a:A.F")]),
    ("no-constraint", mini("n_var=n_var, n_obj=2, n_ieq_constr=1", "out['F'] = np.column_stack([f1, f2])"), [("constraints-missing", "pymoo.problems.a:A.G")]),
    ("undeclared", mini("n_var=n_var, n_obj=2", "out['F'] = np.column_stack([f1, f2]); out['H'] = g"), [("count", "pymoo.problems.a:A.H|1 for 0")]),
    ("no-objective", mini("n_var=n_var, n_obj=2", "out['G'] = g; out.pop('G')"), [("objectives-missing", "pymoo.problems.a:A")]),
    ("bounds", mini("n_var=n_var, n_obj=2, xl=np.zeros(n_var + 1), xu=1", "out['F'] = np.column_stack([f1, f2])"), [("bounds", "pymoo.problems.a:A.xl")]),
    ("front-transposed", mini("n_var=n_var, n_obj=2", "out['F'] = np.column_stack([f1, f2])",
                   "\n        def _calc_pareto_front(self):\n            n = int(np.random.random() * 9)\n            return np.zeros((n, 2)).T\n"), [("front", "pymoo.problems.a:A._calc_pareto_front")]),
    ("front", mini("n_var=n_var, n_obj=2", "out['F'] = np.column_stack([f1, f2])",
                   "\n        def _calc_pareto_front(self):\n            t = np.linspace(0, 1, 9)\n            return np.array([t, 1 - t, t]).T\n"), [("front", "pymoo.problems.a:A._calc_pareto_front")]),
    ("misfit", mini("n_var=n_var, n_obj=2, xu=np.ones(n_var)", "out['F'] = np.column_stack([f1, f2])",
                    "\n        def _calc_pareto_set(self, random_state=None):\n            return np.column_stack([random_state.random((9, 3)), np.zeros((9, 4))]) * self.xu\n"),
     [("shape-error", "pymoo.problems.a:A._calc_pareto_set|np.column_stack([random_state.random((9, 3)), np.zeros((9, 4))]) * self.xu")]),
    ("fit", mini("n_var=n_var, n_obj=2, xu=np.ones(n_var)", "out['F'] = np.column_stack([f1, f2])",
                 "\n        def _calc_pareto_set(self, random_state=None):\n            return np.column_stack([random_state.random((9, 3)), np.zeros((9, self.n_var - 3))]) * self.xu\n"), []),
]
