"""P07 - computations on arrays leave the caller's data unchanged."""
import ast
from sa.model import *
from sa.effects import Effects, SPEC, chain

EXPLANATION = (
    "Interprocedural alias and in-place-update analysis of the whole package (flow-sensitive per function, summaries to a fixpoint): "
    "for every function, which parameters (or arrays reachable from them, or arrays handed out from a problem's cache) may be modified - "
    "item and slice assignment, augmented assignment, in-place methods, out= arguments, numpy in-place functions, attribute writes, and calls "
    "to functions that do so. Every entry point of the computation families must have no such effect on its arguments."
)
ASSUMPTIONS = [
    "library functions outside the package follow a table (views / copies / in-place); unknown externals are taken to return fresh values and modify nothing",
    "an index whose kind cannot be determined is treated as producing a view (may-alias) for loads of numeric arrays",
]

FAMILY = ("pymoo.indicators", "pymoo.core.indicator", "pymoo.core.decomposition", "pymoo.decomposition", "pymoo.core.decision_making",
          "pymoo.mcdm", "pymoo.util.nds", "pymoo.util.normalization", "pymoo.util.dominator", "pymoo.util.reference_direction",
          "pymoo.util.ref_dirs", "pymoo.util.misc", "pymoo.util.vectors", "pymoo.util.optimum", "pymoo.util.clearing", "pymoo.util.roulette",
          "pymoo.util.value_functions", "pymoo.util.vf_dominator", "pymoo.functions", "pymoo.gradient", "pymoo.constraints", "pymoo.problems",
          "pymoo.core.problem", "pymoo.core.individual", "pymoo.operators.survival.rank_and_crowding.metrics",
          "pymoo.util.randomized_argsort", "pymoo.util.archive")
SKIP_CLASSES = {"Individual"}
SKIP_FAMILIES = {"Evaluator", "Callback", "Output", "Animation"}      # their purpose is to act on what they are given
CORE = {"X", "F", "G", "H", "dF", "dG", "dH", "ddF", "ddG", "ddH", "_X", "_F", "_G", "_H", "CV", "_CV", "*"}
SKIP_PARAMS = {"algorithm"}
# (method, parameter) pairs whose contract is to receive results
OUT_PARAMS = {("_evaluate", "out"), ("_evaluate_vectorized", "out"), ("_evaluate_elementwise", "out"), ("_evaluate", "kwargs")}
# documented in-place helpers: the modification is the function's purpose
INPLACE = {"swap", "set_defaults", "set_if_none", "set_if_none_from_tuples", "evaluate_if_not_done_yet", "repair", "parameter_less_constraints",
           "row_at_least_once_true", "project_onto_unit_simplex", "project_onto_unit_simplex_recursive"}


# functions of the library's modules that only their own module calls so far, but that are documented for everybody
PUBLIC = {"calc_rho", "calc_mnn_base", "construct_comp_matrix", "construct_domination_matrix", "solve", "calc_crowding_distance", "calc_crowding_entropy",
          "get_PF", "norm_eucl_dist_by_bounds", "norm_manhatten_dist_by_bounds", "norm_tchebychev_dist_by_bounds", "rank_from_fronts", "find_ideal",
          "quicksort", "calc_dist_to_others_with_gradient", "calc_potential_energy", "calc_potential_energy_with_grad",
          "matrix_project_onto_sum_equals_one_plane", "project_onto", "project_onto_sum_equals_one_plane", "gram_schmidt", "project_onto_one_dim_less",
          "simplex_edge_difference", "linear_vf", "poly_vf", "vf_comparator"}


def family(m):
    return any(m.name == p or m.name.startswith(p + ".") for p in FAMILY)


def external_use(repo):
    """module-level functions referenced from another module, or referenced nowhere (public API)"""
    used, inner = set(), set()
    for f in repo.funcs.values():
        for n in f.walk():
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                r = repo.resolve(n, f.module, f)
                if isinstance(r, Func):
                    (used if r.module is not f.module else inner).add(r)
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                pass
    return used, inner


def run(repo, rep):
    rep.rule("argument-modified", "an entry point of a computation family modifies an argument (directly or through a callee)")
    rep.rule("captured-argument-modified", "a method modifies in place an array that a constructor took over from its caller without copying")
    rep.rule("cached-array-modified", "an array handed out by a problem (Pareto front, ideal/nadir point, bounds) is modified in place")
    eff = Effects(repo)
    used, inner = external_use(repo)
    rep.count("functions_summarised", len(repo.funcs))
    rep.count("fixpoint_iterations", eff.iterations)
    for f in sorted(repo.funcs.values(), key=lambda x: x.id):
        if f.parent is not None or not family(f.module) or f.name in INPLACE:
            continue
        if f.cls is not None:
            if f.cls.name in SKIP_CLASSES or any(isinstance(k, Class) and k.name in SKIP_FAMILIES for k in f.cls.mro):
                continue
            if any(isinstance(k, Class) and k.name == "Problem" for k in f.cls.mro) and not problem_api(f):
                continue
            if f.name.startswith("__") and f.name not in ("__init__", "__call__"):
                continue
            if f.name.startswith("_") and not f.name.startswith("__") and not overrides_family(f):
                continue
        elif f.name.startswith("_") or (f in inner and f not in used and f.name not in PUBLIC):
            continue
        rep.count("entry_points")
        rep.count("parameters_checked", len(f.all_params))
        spec = tuple(sorted((p, f.defaults[p].value) for p in SPEC if p in f.defaults and isinstance(f.defaults[p], ast.Constant)
                            and isinstance(f.defaults[p].value, bool)))
        for k, mu in sorted(eff.summary(f, spec, (f, ())).mut.items(), key=str):
            root = mu.root
            if root[0] != "p" or root[1] in (f.selfname, f.vararg, f.kwarg) or (f.name, root[1]) in OUT_PARAMS:
                continue
            if mu.what.startswith("attr:_") or "cache()" in mu.path and mu.what.startswith("attr"):
                continue
            if mu.what.startswith("attr:") and innermost(mu).func.cls is not None and innermost(mu).func.selfname and any(
                    isinstance(k, Class) and k.name in ("Decomposition", "Problem") for k in innermost(mu).func.cls.mro):
                continue        # a decomposition remembers the reference points of its last call; writes of problems: P10
            if root[1] in SKIP_PARAMS or "algorithm" in mu.path:
                continue
            if mu.what.startswith("attr:") and mu.what[5:] not in CORE and mu.vkind in ("pop", "ind"):
                continue        # decorations of solutions (rank, crowding, niche, ...)
            # report once, at the innermost entry point: skip if the callee that does it is an entry point reported itself
            what = ".".join((root[1],) + mu.path)
            rep.add("argument-modified", f"{f.id} {root[1]}", f"{f.loc}", f"modifies its argument `{what}` ({mu.what}): {chain(mu)}")
    captured(repo, eff, rep)
    cached(repo, eff, rep)
    for k, m in [("entry_points", 400), ("functions_summarised", 1500), ("captured_attributes", 50)]:
        rep.floor(k, m)


def overrides_family(f):
    """underscored template methods (_do, _evaluate, _calc...) that a base class calls with the caller's data"""
    return f.name in ("_do", "_evaluate", "_calc", "_calc_pareto_front", "_calc_pareto_set", "_advance", "_forward", "_backward")


def innermost(mu):
    while mu.via is not None:
        mu = mu.via
    return mu


def problem_api(f):
    """methods of problems that are called with data of others: those of the base class and their overrides"""
    base = f.repo.cls("Problem")
    return f.cls is base or (f.name in base.methods and f.name != "__init__") or f.name.startswith("_evaluate")


def captured(repo, eff, rep):
    import sa.effects as E
    for c in sorted(repo.classes.values(), key=lambda x: x.id):
        if not family(c.module) or c.name in SKIP_CLASSES:
            continue
        cap = {}
        for k in c.mro:
            if not isinstance(k, Class):
                continue
            i = k.methods.get("__init__")
            if i is None:
                continue
            # attributes bound directly to a parameter (possibly through a view function)
            for n in i.walk():
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == i.selfname:
                            v = n.value
                            if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in E.VIEW_FUNCS and v.args:
                                v = v.args[0]
                            if isinstance(v, ast.Name) and v.id in i.all_params and not reassigned(i, v.id):
                                cap[t.attr] = (i, v.id)
        rep.count("captured_attributes", len(cap))
        for m in c.methods.values():
            for key, mu in eff.mutated(m).items():
                if mu.root == ("p", m.selfname) and len(mu.path) >= 1 and mu.path[0] in cap and mu.what == "item":
                    # rebound in this class elsewhere -> not the caller's object any more
                    if rebinds(c, mu.path[0], cap[mu.path[0]][0]):
                        continue
                    if len(mu.path) > 1:
                        continue
                    rep.add("captured-argument-modified", f"{c.id}.{mu.path[0]} {m.name}", mu.loc,
                            f"`{unparse(mu.node, 70)}` modifies `{mu.path[0]}`, the object the caller passed to {cap[mu.path[0]][0].qual}")


def reassigned(f, name):
    return any(isinstance(n, ast.Assign) and any(name in target_names(t) for t in n.targets) for n in f.walk())


def rebinds(c, attr, init):
    """is `attr` bound to another object somewhere (other than replacing a missing value: `if self.attr is None`)"""
    for m in c.methods.values():
        fallback = set()
        for n in m.walk():
            if isinstance(n, ast.If) and any(isinstance(x, ast.Compare) and isinstance(x.ops[0], ast.Is) and isinstance(x.left, ast.Attribute)
                                             and x.left.attr == attr for x in ast.walk(n.test)):
                fallback.update(id(x) for b in n.body for x in ast.walk(b))
        k = 0
        for n in m.walk():
            if isinstance(n, ast.Assign) and id(n) not in fallback:
                for t in n.targets:
                    for tt in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(tt, ast.Attribute) and isinstance(tt.value, ast.Name) and tt.value.id == m.selfname and tt.attr == attr:
                            k += 1
        if k > (1 if m is init else 0):
            return True
    return False


HANDED = {"xl", "xu", "cache()"}


def cached(repo, eff, rep):
    for (f, spec), direct in eff.direct.items():
        for roots, what, node, val, via in direct:
            rep.count("inplace_updates_examined")
            if what != "item":
                continue
            for r, p in roots:
                if r[0] != "p" or not p:
                    continue
                isproblem = r[1] == "problem" or "problem" in p[:-1] or (r[1] == f.selfname and f.cls is not None and any(
                    isinstance(k, Class) and k.name == "Problem" for k in f.cls.mro))
                if p[-1] in ("cache()", "result()") or (isproblem and p[-1] in HANDED and f.name != "__init__"):
                    if f.module.name == "pymoo.util.cache":
                        continue
                    rep.add("cached-array-modified", f"{f.id} {'.'.join((r[1],) + p)}", f"{f.module.rel}:{node.lineno} {f.qual}",
                            f"`{unparse(node, 80)}` modifies in place an array owned by the problem ({'.'.join((r[1],) + p)})")


SELFTESTS = [("in-place", {"pymoo/indicators/mini.py": """
    import operator
    import numpy as np
    from pymoo.core.problem import Problem

    class Wrapper(Problem):
        def evaluate(self, X):
            out = self.do(X)
            for k, v in out.items():
                v = np.asarray(v)
                v[np.isnan(v)] = 0.0
            return out

        def do(self, X):
            out = {"F": None}
            self._evaluate(X, out)
            for k, v in out.items():
                v = np.array(v)
                v[np.isnan(v)] = 0.0
            return out

    def helper(A):
        A[:, 0] = 0

    def bad_direct(F):
        F -= F.min(axis=0)
        return F.sum()

    def bad_view(F):
        v = F.T
        v[0] = 1
        return F

    def bad_callee(F):
        helper(F.reshape(3, -1))

    def bad_rows(F):
        n, m = F.shape
        for row in F:
            row += 1.0
        return n

    def bad_listed(F):
        first = [F[0, :]]
        first[0] -= 1.0
        return first

    def count(n_items):
        n = [0, n_items]
        n[1] += 1
        for k in range(3):
            k += 1
        return n

    def good(F, out=None):
        F = F - F.min(axis=0)
        F[F < 0] = 0
        G = F.copy()
        G += 1
        helper(np.array(F))
        return F[F > 1]

    def bad_operator(F):
        operator.isub(F, 1.0)
        return F.__imul__(2.0)

    class Bad:
        def __init__(self, pf):
            self.pf = pf

        def do(self, F):
            self.pf /= 2
            return F
    """, "pymoo/core/problem.py": "class Problem:\n    pass\n"}, [("argument-modified", "pymoo.indicators.mini:bad_operator F"), ("cached-array-modified", "pymoo.indicators.mini:Wrapper.evaluate self.result()"),
           ("argument-modified", "pymoo.indicators.mini:bad_direct F"), ("argument-modified", "pymoo.indicators.mini:bad_view F"),
           ("argument-modified", "pymoo.indicators.mini:bad_callee F"),
           ("argument-modified", "pymoo.indicators.mini:bad_rows F"), ("argument-modified", "pymoo.indicators.mini:bad_listed F"), ("captured-argument-modified", "pymoo.indicators.mini:Bad.pf do")])]
