"""P09 - candidates of box-constrained problems stay within the bounds."""
import ast
import sys
from sa.model import *
from sa.util import *
from sa.boxes import Boxes, V, N, Stop, UND, USER, NONE, OPT

EXPLANATION = (
    "Every algorithm of the package is constructed symbolically with its options left open, and its initialisation, infill and advance methods are followed, as is the do method of every crossover, mutation, sampling, infill criterion and "
    "bounds repair. Arrays are abstracted pointwise: the value at any position is an affine form over the lower bound, the upper bound and points known to lie inside (the variables of given solutions), with coefficients that are "
    "polynomials of ranged numbers (random draws, options), and it is known to be at least the lower and at most the upper bound when the form says so (a weight in [0, 1] between two inside points) or when it was compared, clipped, or "
    "overwritten under a mask. Every value that becomes the variables of a new candidate must be inside; a candidate whose last arithmetic is not followed by bringing it back is reported. What the interpreter cannot determine "
    "is counted as undecided and not judged."
)
ASSUMPTIONS = [
    "components given by the user keep what they receive inside the bounds, and numeric options have their default values",
    "loops run at least once, and a loop over range(...) or enumerate(...) addresses every position of the arrays indexed by its variable",
    "rounding is neglected, as is the alignment of columns (a value clipped with the bound of another variable)",
    "candidates built by libraries outside the package (the CMA-ES and Optuna samplers) and binary, permutation and choice variables are undecided",
]
FLOORS = [("candidates", 120), ("inside", 60), ("roots", 120), ("operators", 20)]


def run(repo, rep):
    rep.rule("left", "a candidate can leave the bounds: the last arithmetic on its variables is not followed by bringing them back inside")
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(max(lim, 9000))
    try:
        for c in sorted(repo.cls("Algorithm").family(), key=lambda c: c.id):
            algorithm(repo, rep, c)
        for base in ("Crossover", "Mutation", "Sampling", "BoundsRepair", "InfillCriterion"):
            for c in sorted(repo.cls(base).family(), key=lambda c: c.id):
                operator(repo, rep, c, base)
        for f in helpers(repo):
            helper(repo, rep, f)
    finally:
        sys.setrecursionlimit(lim)
    if not getattr(repo, "mini", False):
        for k, m in FLOORS:
            rep.floor(k, m)


ROOTS = ("_initialize_infill", "_infill", "_next", "_initialize_advance", "_advance", "step")
SKIP = {"Algorithm", "MetaAlgorithm"}


def build(b, c):
    """the component, constructed with options left open"""
    o = V("obj", ("o", b.id()), c)
    b.st.heap[o.a] = {}
    init = c.lookup("__init__")
    if isinstance(init, Func):
        env = {init.args[0]: o} if init.args else {}
        a = init.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (bool, str))):
                env[p.arg] = OPT
        try:
            b.inline(init, env, init.node, c)
        except Stop:
            pass
    prune(b, o, c)
    return o


def prune(b, o, c):
    """what the constructor and the setup stored is only kept when nothing else assigns it"""
    changed = c.__dict__.get("_p09_changed")
    if changed is None:
        changed = {n.attr for k in c.mro if isinstance(k, Class) for m in k.methods.values() if isinstance(m, Func) and m.name not in ("__init__", "_setup")
                   for n in m.walk() if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        c._p09_changed = changed
    h = b.st.heap[o.a]
    for k, v in list(h.items()):
        if v.k == "und" or v.k == "const" and (v.a is None or isinstance(v.a, (bool, str))) or k in changed and v.k in ("const", "num", "seq", "pop"):
            del h[k]


def report(rep, b, c, where):
    for f, node, n in b.sinks:
        rep.count("candidates")
        if n.good:
            rep.count("inside")
        elif n.off:
            rep.count("outside")
            rep.add("left", f"{f.module.name}:{f.qual}", f"{f.module.rel}:{getattr(node, 'lineno', 0)} {f.qual}",
                    f"a candidate of {c.name} can be outside of the bounds: the arithmetic in {n.off[0]} ({n.off[1]}) is not followed by bringing the variables back inside")
        else:
            rep.count("undecided")
            rep.sample("undecided", f"{c.name}: {f.qual}:{getattr(node, 'lineno', 0)} {n}", limit=200)
    b.sinks = []


def algorithm(repo, rep, c):
    if c.name in SKIP:
        return
    ms = [m for m in (c.lookup(r) for r in ROOTS) if isinstance(m, Func) and "abstractmethod" not in m.decorator_names()]
    if not any(m.cls is c for m in ms) and not c.methods.get("__init__"):
        return
    for m in ms:
        if m.cls.name == "LoopwiseAlgorithm":
            continue
        b = Boxes(repo)
        try:
            o = build(b, c)
            o = V("obj", o.a, c, "root")
            su = c.lookup("_setup")
            if isinstance(su, Func):
                b.inline(su, {su.args[0]: o, **({su.args[1]: b.problem} if len(su.args) > 1 else {})}, su.node, c)
                prune(b, o, c)
            rep.count("roots")
            env = {m.args[0]: o, **{a: USER for a in ("infills", "algorithm") if a in m.args or a in m.kwonly}}
            v = b.inline(m, env, m.node, c)
        except Stop:
            rep.count("stopped")
            rep.sample("stopped", f"{c.name}.{m.name}", limit=50)
            continue
        except RecursionError as e:
            rep.count("gave_up")
            continue
        fr = b.frames
        b.frames.append(type("F", (), {"func": m, "loopvars": set()})())
        if v is not NONE and "advance" not in m.name and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in m.walk()):
            b.sink(v, m.node)
        report(rep, b, c, m)


def operator(repo, rep, c, base):
    m = c.lookup("do")
    if not isinstance(m, Func) or c.name == base:
        return
    d = c.lookup("_do")
    if not isinstance(d, Func) or "abstractmethod" in d.decorator_names():
        d = m
    b = Boxes(repo)
    try:
        o = build(b, c)
        o = V("obj", o.a, c, "op")
        rep.count("operators")
        pop = b.newpop(b.new(b.point()))
        b.enclosing = o
        args = [b.problem, pop] if base != "Sampling" else [b.problem, b.fresh(1.0)]
        if base == "BoundsRepair":
            args[1] = b.newpop(b.new(N(off=("given", "given"), ident=b.id())))
        kws = {"random_state": V("rng"), "algorithm": USER}
        r = c.lookup("repair_out_of_bounds")
        if isinstance(r, Func) and "P" in r.args:
            kws["P"] = b.new(b.point())
        kws = {k: v for k, v in kws.items() if k == "P" or m.kwarg is not None or k in m.args or k in m.kwonly}
        v = b.inline(m, b.bindcall(m, args, kws, first=o), m.node, c)
    except Stop:
        rep.count("stopped")
        rep.sample("stopped", f"{c.name}.do", limit=50)
        return
    except RecursionError:
        rep.count("gave_up")
        return
    b.frames.append(type("F", (), {"func": d, "loopvars": set()})())
    b.sink(v, d.node)
    report(rep, b, c, d)


NAMES = {"set_to_bounds_if_outside", "bounce_back", "repair_clamp", "repair_periodic", "repair_random_init", "inverse_penality", "midway", "to_bounds", "rand_init"}


def helpers(repo):
    """the public functions that bring variables back"""
    return sorted((f for f in repo.funcs.values() if f.cls is None and f.name in NAMES and {"xl", "xu"} <= set(f.args) and "<locals>" not in f.qual), key=lambda f: f.id)


def helper(repo, rep, f):
    b = Boxes(repo)
    env = {f.args[0]: b.new(N(off=("given", "given"), ident=b.id()))}
    env.update({a: b.new(b.point()) for a in f.args[1:] if a in ("X", "Xb", "p", "P")})
    env.update({"xl": b.new(b.bound("BL")), "xu": b.new(b.bound("BU"))})
    env.update({a: V("rng") for a in ("random_state",) if a in f.args})
    try:
        v = b.inline(f, env, f.node)
    except (Stop, RecursionError):
        rep.count("stopped")
        rep.sample("stopped", f.qual, limit=50)
        return
    rep.count("helpers")
    if v.k != "num":
        rep.count("undecided")
        return
    n = b.num(v)
    rep.count("inside" if n.good else "outside" if n.off else "undecided")
    if n.off and not n.good:
        rep.add("left", f"{f.module.name}:{f.qual}", f"{f.module.rel}:{f.lineno} {f.qual}", "the variables that are returned can be outside of the bounds that are given")


BASE = '''
import numpy as np


class Population:
    @classmethod
    def new(cls, *args, **kwargs):
        return cls()

    def get(self, *args):
        return None


class Individual:
    def __init__(self, X=None, **kwargs):
        self.X = X


class Algorithm:
    def _infill(self):
        pass


class InfillCriterion:
    def do(self, problem, pop, n, **kwargs):
        return self._do(problem, pop, n, **kwargs)


class Crossover:
    def do(self, problem, pop, random_state=None, **kwargs):
        X = pop.get("X")
        Xp = self._do(problem, X, random_state=random_state, **kwargs)
        return Population.new("X", Xp)


class Mutation:
    pass


class Sampling:
    def do(self, problem, n, random_state=None):
        return Population.new("X", self._do(problem, n, random_state=random_state))


class BoundsRepair:
    def do(self, problem, pop, **kwargs):
        X = self.repair(problem, pop.get("X"))
        return Population.new("X", X)

    def _do(self, problem, X):
        return X


def clamp(X, xl, xu):
    low = X < xl
    X[low] = xl[low]
    X[X > xu] = xu[X > xu]
    return X


def again(Xp, X, xl, xu, random_state):
    i, j = np.where(Xp < xl)
    if len(i) > 0:
        Xp[i, j] = xl[i, j] + random_state.random(len(i)) * (X[i, j] - xl[i, j])
    i, j = np.where(Xp > xu)
    if len(i) > 0:
        Xp[i, j] = xu[i, j] - random_state.random(len(i)) * (xu[i, j] - X[i, j])
    return Xp


class Blend(Crossover):
    def __init__(self, alpha=0.5):
        self.alpha = alpha

    def _do(self, problem, X, random_state=None, **kwargs):
        w = random_state.random(X.shape)
        Q = X[0] + 2 * w * (X[1] - X[0])
        return clamp(Q, *problem.bounds())


class Within(Crossover):
    def __init__(self, alpha=0.5):
        self.alpha = alpha

    def _do(self, problem, X, random_state=None, **kwargs):
        w = self.alpha * random_state.random(X.shape)
        return X[0] + w * (X[1] - X[0])


class Uniform(Sampling):
    def _do(self, problem, n, random_state=None):
        X = random_state.random((n, problem.n_var))
        xl, xu = problem.bounds()
        return xl + (xu - xl) * X


class Bounce(BoundsRepair):
    def repair(self, problem, X):
        xl, xu = problem.bounds()
        X = np.where(X < xl, xl + np.mod(xl - X, xu - xl), X)
        return np.where(X > xu, xu - (X - xu) % (xu - xl), X)


class Swarm(Algorithm):
    def __init__(self, w=0.9):
        self.w = w

    def _infill(self):
        X = self.pop.get("X")
        V = self.random_state.normal(size=X.shape)
        Xp = X + self.w * V
        if self.problem.has_bounds():
            Xp = again(Xp, X, *self.problem.bounds(), random_state=self.random_state)
        return Population.new(X=Xp, V=V)


class Unknown(Algorithm):
    def _infill(self):
        return Population.new(X=library.ask(self.problem))
'''


def changed(*edits):
    s = BASE
    for a, b in edits:
        assert a in s, a
        s = s.replace(a, b)
    return {"pymoo/m.py": s}


REWRITE = [("low = X < xl\n    X[low] = xl[low]\n    X[X > xu] = xu[X > xu]\n    return X", "return np.minimum(np.maximum(X, xl), xu)"),
           ("X[0] + w * (X[1] - X[0])", "(1 - w) * X[0] + w * X[1]"),
           ("return xl + (xu - xl) * X", "return random_state.uniform(xl, xu, size=X.shape)"),
           ("        X = np.where(X < xl, xl + np.mod(xl - X, xu - xl), X)", "        below = X < xl\n        X[below] = xl[below] + np.mod(xl[below] - X[below], (xu - xl)[below])")]
SELFTESTS = [
    ("clean", changed(), []),
    ("rewritten", changed(*REWRITE), []),
    ("not clamped", changed(("return clamp(Q, *problem.bounds())", "return Q")), [("left", "pymoo.m:Blend._do")]),
    ("one side", changed(("    X[X > xu] = xu[X > xu]\n", "")), [("left", "pymoo.m:Blend._do")]),
    ("moved after", changed(("return clamp(Q, *problem.bounds())", "return clamp(Q, *problem.bounds()) + w")), [("left", "pymoo.m:Blend._do")]),
    ("copy clamped", changed(("return clamp(Q, *problem.bounds())", "clamp(np.copy(Q), *problem.bounds())\n        return Q")), [("left", "pymoo.m:Blend._do")]),
    ("too far", changed(("alpha=0.5):\n        self.alpha = alpha\n\n    def _do(self, problem, X, random_state=None, **kwargs):\n        w = self", "alpha=1.5):\n        self.alpha = alpha\n\n    def _do(self, problem, X, random_state=None, **kwargs):\n        w = self")), [("left", "pymoo.m:Within._do")]),
    ("span", changed(("return xl + (xu - xl) * X", "return xl + xu * X")), [("left", "pymoo.m:Uniform._do")]),
    ("bounce", changed(("xu - (X - xu) % (xu - xl)", "xu - (X - xu)")), [("left", "pymoo.m:BoundsRepair._do")]),
    ("wrong parent", changed(("again(Xp, X, *self", "again(Xp, Xp, *self")), [("left", "pymoo.m:Swarm._infill")]),
    ("helper", changed(("class Blend", "def repair_clamp(Xp, xl, xu):\n    Xp[Xp < xl] = xl[Xp < xl]\n    return Xp\n\n\ndef midway(X, Xb, xl, xu):\n    return np.where(X < xl, (xl + Xb) / 2, np.where(X > xu, (Xb + xu) / 2, X))\n\n\nclass Blend")), [("left", "pymoo.m:repair_clamp")]),
    ("grid", changed(("X = random_state.random((n, problem.n_var))", "X = (random_state.random((n, problem.n_var)).argsort(axis=0) + 1 - random_state.random((n, problem.n_var))) / n")), []),
    ("off the grid", changed(("X = random_state.random((n, problem.n_var))", "X = (random_state.random((n, problem.n_var)).argsort(axis=0) + 1.25 - random_state.random((n, problem.n_var))) / n")), [("left", "pymoo.m:Uniform._do")]),
    ("sometimes", changed(("if self.problem.has_bounds():", "if self.problem.has_bounds() and len(X) > 3:")), [("left", "pymoo.m:Swarm._infill")]),
]
