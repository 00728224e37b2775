"""P01 - seeded runs draw every random number from the run's own generator."""
import ast
from sa.model import *
from sa.rng import Rng, SEEDED_CTORS, is_global_random, DECORATOR

EXPLANATION = (
    "Interprocedural effect analysis over the resolved call graph of pymoo/**/*.py, per receiver class: which callables consume "
    "randomness handed to them as `random_state` (directly, or forwarded explicitly / through **kwargs), and at every call site whether "
    "a generator is passed on. Reported: calls that let a drawing callee fall back to an unseeded generator, any use of process-global "
    "random state, generators created without a seed, nondeterministic sources (clock, id/hash, unordered sets) that reach ordered data, "
    "and a generator of the run that is not created from the run's seed after the options were applied."
)
ASSUMPTIONS = [
    "code passed in by the user (problems, callbacks, custom operators) and third-party optimizers (cma, optuna, scipy) are outside the analysis",
    "an unresolvable callee (dynamic attribute with no class or function ever bound to that name in the package) is treated as not drawing",
]

CLOCK_OK = ("pymoo.core.algorithm", "pymoo.termination.max_time", "pymoo.util.display")
IDHASH_OK = ("pymoo.core.duplicate", "pymoo.algorithms.soo.nonconvex.optuna")
CLOCK_TEXT = ("time.asctime", "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "time.sleep")   # text for messages
INT_SOURCES = {"builtins.range", "numpy.arange", "numpy.where", "numpy.argsort", "numpy.unique", "numpy.nonzero", "numpy.flatnonzero",
               "numpy.lexsort", "numpy.argwhere"}
ORDERED_SINKS = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.iter", "builtins.map", "builtins.next",
                 "numpy.array", "numpy.asarray", "numpy.fromiter"}
UNORDERED_SINKS = {"builtins.sorted", "builtins.len", "builtins.min", "builtins.max", "builtins.sum", "builtins.any", "builtins.all",
                   "builtins.set", "builtins.frozenset", "numpy.unique", "numpy.sort", "builtins.dict"}


def run(repo, rep):
    rep.rule("global-random", "no reference to process-global random state (numpy.random.<fn>, random, secrets, os.urandom)")
    rep.rule("unseeded-generator", "no generator constructed without an explicit seed or from the clock / id / pid")
    rep.rule("foreign-generator", "no generator with a constant seed outside of the problem definitions")
    rep.rule("generator-not-passed", "a callee that draws from its generator is always given one")
    rep.rule("bad-generator", "the argument bound to a callee's generator parameter is a generator")
    rep.rule("generator-attribute", "the `random_state` attribute is only bound to a generator derived from the seed")
    rep.rule("nondeterministic-source", "clock, id(), hash(), os.listdir and the iteration order of sets do not reach ordered data")
    rep.rule("run-generator", "Algorithm.setup creates the generator from the seed, after the options are applied")
    rep.rule("seed-truth", "a seed is never tested for truth: 0 is a seed, only None is none")
    rep.rule("uninitialised", "an array allocated without values is filled before it is read")
    rep.rule("default-wrapper", "default_random_state hands a given generator to the wrapped function unchanged")
    g = Rng(repo)
    analyse(repo, g, rep)
    check_wrapper(repo, g, rep)
    if getattr(repo, "mini", False):
        return
    check_setup(repo, g, rep)
    for k, m in [("functions", 1500), ("call_sites_of_drawing_callees", 120), ("call_sites_passing_a_generator", 110),
                 ("drawing_functions", 120)]:
        rep.floor(k, m)


def analyse(repo, g, rep):
    rep.count("functions", len(repo.funcs))
    rep.count("drawing_functions", len({f for f, _ in g.draws}))
    seen = set()
    good = set()
    for f, C in g.nodes:
        for c in g.calls[f]:
            for t, k in repo.ctx_targets(c, f, C):
                if not isinstance(t, Func) or not g.needs(t, k, c, f):
                    continue
                p = g.passes(c, f, t)
                if p in ("rs", "fwd"):
                    if id(c) not in good:
                        good.add(id(c))
                        rep.sample("generator passed on", f"{f.module.rel}:{c.lineno} {f.qual}: {unparse(c, 80)}", 6)
                    continue
                if (id(c)) in seen:
                    continue
                seen.add(id(c))
                rule = "generator-not-passed" if p == "none" else "bad-generator"
                rep.add(rule, f"{f.id} -> {unparse(c.func, 60)}", f"{f.module.rel}:{c.lineno} {f.qual}",
                        f"`{unparse(c, 90)}` reaches a draw without the run's generator: {g.witness((t, k))}")
    rep.count("call_sites_of_drawing_callees", len(seen | good))
    rep.count("call_sites_passing_a_generator", len(good))

    # references ------------------------------------------------------------------------------
    for f in repo.funcs.values():
        scan(repo, g, rep, f)
    for m in repo.modules.values():
        scan_module(repo, g, rep, m)


def outer_exprs(f):
    """maximal Name/Attribute chains of a function body (annotations skipped)"""
    skip = set()
    for n in f.walk():
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                skip.add(id(x))
    inner = set()
    out = []
    for n in f.walk():
        if id(n) in skip:
            continue
        if isinstance(n, ast.Attribute):
            inner.add(id(n.value))
            if id(n) not in inner:
                out.append(n)
        elif isinstance(n, ast.Name) and id(n) not in inner and isinstance(n.ctx, ast.Load):
            out.append(n)
    return out


def fixed_seed(repo, c, f):
    """the arguments of a generator constructor are constants of the source (directly or through local variables)"""
    def const(e, depth=0):
        if depth > 5 or e is None:
            return False
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            return all(const(x, depth + 1) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))
        if isinstance(e, (ast.List, ast.Tuple)):
            return all(const(x, depth + 1) for x in e.elts)
        if isinstance(e, ast.Name):
            if e.id in repo.local_names(f):
                if e.id in f.args + f.kwonly:
                    return False
                vals = repo.local_assigns(f).get(e.id, [])
                return bool(vals) and all(const(v, depth + 1) for v in vals)
            r = repo.resolve(e, f.module, f)
            return isinstance(r, Var) and r.node is not None and const(r.node, depth + 1)
        if isinstance(e, ast.Call):
            r = repo.resolve(e.func, f.module, f)
            return isinstance(r, Ext) and r.path in SEEDED_CTORS and all(const(x, depth + 1) for x in list(e.args) + [k.value for k in e.keywords])
        return False
    args = list(c.args) + [k.value for k in c.keywords]
    return bool(args) and all(const(a) for a in args)


def scan(repo, g, rep, f):
    calls = {id(c.func): c for c in g.calls[f]}
    for e in outer_exprs(f):
        r = repo.resolve(e, f.module, f)
        if not isinstance(r, Ext):
            continue
        p = r.path
        rep.count("external_references")
        c = calls.get(id(e))
        where = f"{f.module.rel}:{e.lineno} {f.qual}"
        if is_global_random(p):
            if p in SEEDED_CTORS:
                if c is not None:
                    rep.count("generators_constructed")
                    if g.ctor_kind(c, f) == "unseeded":
                        rep.add("unseeded-generator", f"{f.id}", where, f"`{unparse(c)}` creates a generator that no seed controls")
                    elif not f.module.name.startswith("pymoo.problems") and fixed_seed(repo, c, f):
                        rep.add("foreign-generator", f"{f.id}", where, f"`{unparse(c)}` draws from a generator of its own, whatever the seed of the run")
                continue
            rep.add("global-random", f"{f.id} {p}", where, f"`{unparse(e)}` is process-global random state ({p})")
        elif p.startswith("scipy.stats.") and c is not None and p.split(".")[-1] in ("rvs",):
            if not any(k.arg in ("random_state", "seed", "rng") for k in c.keywords):
                rep.add("global-random", f"{f.id} {p}", where, f"`{unparse(c)}` draws from numpy's global random state")
        elif p.startswith("time.") or p.startswith("datetime."):
            if not f.module.name.startswith(CLOCK_OK) and p not in CLOCK_TEXT:
                rep.add("nondeterministic-source", f"{f.id} {p}", where, f"`{unparse(e)}` reads the clock outside run bookkeeping")
        elif p in ("builtins.id", "builtins.hash") and c is not None:
            if not f.module.name.startswith(IDHASH_OK) and f.name not in ("__hash__", "__eq__"):
                if in_order_position(f, c):
                    rep.add("nondeterministic-source", f"{f.id} {p}", where, f"`{unparse(c)}` differs between processes")
        elif p in ("os.getpid", "os.urandom", "uuid.uuid4", "uuid.uuid1"):
            rep.add("nondeterministic-source", f"{f.id} {p}", where, f"`{unparse(e)}` differs between processes")
        elif p in ("os.listdir", "glob.glob", "os.scandir") and c is not None and not wrapped_in(f, c, {"sorted"}):
            rep.add("nondeterministic-source", f"{f.id} {p}", where, f"`{unparse(c)}` has no defined order")
    # methods on scipy distributions: X.rvs(...)
    for c in g.calls[f]:
        if isinstance(c.func, ast.Attribute) and c.func.attr == "rvs":
            if not any(k.arg in ("random_state", "seed", "rng") for k in c.keywords):
                rep.add("global-random", f"{f.id} rvs", f"{f.module.rel}:{c.lineno} {f.qual}", f"`{unparse(c)}` draws from numpy's global random state")
    # attribute bindings
    for n in f.walk():
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == "random_state" and n.value is not None:
                    rep.count("generator_attribute_bindings")
                    v = n.value
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    if not g.is_rs(v, f):
                        rep.add("generator-attribute", f"{f.id}", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(n)}` does not bind a seeded generator")
    set_order(repo, g, rep, f)
    seed_truth(rep, f)
    uninitialised(repo, g, rep, f)


def truth_operands(e):
    """the expressions whose truth value decides `e`"""
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in truth_operands(v)]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return truth_operands(e.operand)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
        return truth_operands(e.args[0])
    return [e]


def seed_truth(rep, f):
    if ".vendor" in f.module.name:
        return
    aliases = {"seed"}
    for n in f.walk():
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if terminal(v) in ("seed",) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("get", "pop")
                                            and v.args and isinstance(v.args[0], ast.Constant) and v.args[0].value == "seed"):
                aliases.add(n.targets[0].id)
    done = set()
    for n in f.walk():
        ops = []
        if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            ops = truth_operands(n.test)
        elif isinstance(n, ast.BoolOp):
            ops = [x for v in n.values[:-1] for x in truth_operands(v)]
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            ops = truth_operands(n.operand)
        elif isinstance(n, ast.comprehension):
            ops = [x for t in n.ifs for x in truth_operands(t)]
        for x in ops:
            t = terminal(x)
            if (t in aliases if isinstance(x, ast.Name) else t == "seed") and id(x) not in done:
                done.add(id(x))
                rep.add("seed-truth", f"{f.id}", f"{f.module.rel}:{x.lineno} {f.qual}", f"`{unparse(x)}` is tested for truth: seed 0 is treated as no seed")


def terminal(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def uninitialised(repo, g, rep, f):
    """np.empty(...) bound to a local: some store has to reach every element before the array is read"""
    par = parents_of(f)
    for n in f.walk():
        if not (isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))):
            continue
        r = repo.resolve(n.func, f.module, f)
        if not (isinstance(r, Ext) and r.path in ("numpy.empty", "numpy.empty_like")):
            continue
        dt = [k.value for k in n.keywords if k.arg == "dtype"] + list(n.args[1:2])
        if any(isinstance(x, ast.Name) and x.id == "object" or isinstance(x, ast.Attribute) and x.attr == "object_" for x in dt):
            continue                                    # filled with None
        shape = [x for x in list(n.args[:1]) + [k.value for k in n.keywords if k.arg == "shape"]]
        if r.path == "numpy.empty" and any(isinstance(x, ast.Constant) and x.value == 0 for s in shape for x in [s] + list(getattr(s, "elts", []))):
            continue                                    # no elements
        rep.count("arrays_allocated_without_values")
        where = f"{f.module.rel}:{n.lineno} {f.qual}"
        p = par.get(id(n))
        if not (isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is n):
            if isinstance(p, ast.keyword) and p.arg == "out":
                continue
            if isinstance(p, ast.Call) and n in p.args and not handed_filled(repo, g, f, p, n, 0):
                rep.add("uninitialised", f"{f.id} {unparse(n, 40)}", where, f"`{unparse(p)}`: the callee stores values in a part of the array only")
            if isinstance(p, (ast.Return, ast.BinOp, ast.Compare)) or isinstance(p, ast.Call) and isinstance(repo.resolve(p.func, f.module, f), Ext):
                rep.add("uninitialised", f"{f.id} {unparse(n, 40)}", where, f"`{unparse(n)}` is read without a value ever stored in it")
            continue
        names = {x.id for t in (p.targets if isinstance(p, ast.Assign) else [p.target]) for x in [t] if isinstance(x, ast.Name)}
        if not names:
            continue
        for what, tname in unfilled(repo, g, f, names, p):
            rep.add("uninitialised", f"{f.id} {sorted(names)[0]}", where, f"`{unparse(n)}`: {what}")


def unfilled(repo, g, f, names, alloc, depth=0):
    """[(why, name)] when the elements of the array called `names` in `f` are not all stored to"""
    par = parents_of(f)
    stores, escapes, reads = [], False, 0
    for x in f.walk():
        if not (isinstance(x, ast.Name) and x.id in names):
            continue
        if isinstance(x.ctx, ast.Store):
            continue
        q = par.get(id(x))
        # X[...] = v  /  X[...][...] = v  / X.fill(v) / X.flat[...] = v
        node = x
        top = None
        while isinstance(q, (ast.Subscript, ast.Attribute)) and q.value is node:
            top, node = q, q
            q = par.get(id(q))
        if isinstance(top, ast.Subscript) and isinstance(top.ctx, ast.Store):
            stores.append((top, x))
        elif isinstance(q, ast.Call) and (q.func is top and top is not None):
            if top.attr in ("fill", "put", "__setitem__", "partition", "sort"):
                stores.append((top, x))
            else:
                reads += 1
        elif isinstance(q, ast.keyword) and q.arg == "out":
            escapes = True
        elif isinstance(q, ast.keyword) or isinstance(q, (ast.Call, ast.Starred)) and node in getattr(q, "args", []):
            call = q if isinstance(q, ast.Call) else par.get(id(q))
            t = repo.resolve(call.func, f.module, f) if isinstance(call, ast.Call) else None
            if isinstance(t, Ext) and t.path.split(".")[-1] not in ("copyto", "put", "place", "putmask", "fill_diagonal", "zip", "enumerate",
                                                                     "iter", "nditer", "ndenumerate", "append", "shuffle", "map"):
                reads += 1
            elif node is x and isinstance(call, ast.Call) and depth == 0 and not handed_filled(repo, g, f, call, x, depth):
                reads += 1
            else:
                escapes = True                      # may be filled there
        elif isinstance(q, ast.Assign) and q.value is node or isinstance(q, (ast.For, ast.comprehension, ast.NamedExpr, ast.Yield, ast.Dict, ast.Tuple, ast.List)):
            escapes = escapes or not isinstance(q, (ast.Dict, ast.Tuple, ast.List))    # a view / another name
            reads += 1
        else:
            reads += 1
    if escapes or not (reads or stores):
        return []
    if not stores:
        return [("it is read without a value ever stored in it", None)]
    parts = [partial_store(repo, f, par, s, x, alloc) for s, x in stores]
    if all(parts) and len(set(parts)) == 1:
        return [(f"the only value stored reaches {parts[0]}; the other elements hold whatever the memory held", None)]
    return []


def handed_filled(repo, g, f, call, arg, depth):
    """the callee may fill all of the array handed to it"""
    ts = [t for t in repo.resolve_call(call, f, fallback=False) if isinstance(t, Func)]
    if not ts:
        return True
    for t in ts:
        p = None
        if arg in call.args:
            i = call.args.index(arg)
            if any(isinstance(a, ast.Starred) for a in call.args[:i]) or i >= len(t.params):
                return True
            p = t.params[i]
        else:
            for k in call.keywords:
                if k.value is arg:
                    p = k.arg
        if p is None or p not in t.args + t.kwonly:
            return True
        if unfilled(repo, g, t, {p}, t.node, depth + 1):
            return False
    return True


def partial_store(repo, f, par, store, name, alloc):
    """what part of the array a store is restricted to, None when it may reach all of it"""
    # conditions between the allocation and the store
    outer = set()
    q = par.get(id(alloc))
    while q is not None:
        outer.add(id(q))
        q = par.get(id(q))
    n, q = store, par.get(id(store))
    in_loop = False
    cond = None
    while q is not None and id(q) not in outer and not isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        if isinstance(q, ast.If) and (n in q.body and not q.orelse or n in q.orelse and not q.body):
            if not escaping(q):
                cond = f"the case `{unparse(q.test, 60)}`"
        if isinstance(q, ast.If) and n in q.body and q.orelse and not any(isinstance(y, ast.Name) and y.id == name.id for st in q.orelse for y in ast.walk(st)):
            if not terminates(q.orelse):
                cond = f"the case `{unparse(q.test, 60)}`"
        if isinstance(q, (ast.For, ast.While)):
            in_loop = True
        n, q = q, par.get(id(q))
    if cond and in_loop:
        return cond
    if isinstance(store, ast.Subscript):
        ix = store.slice
        for e in ([ix] if not isinstance(ix, ast.Tuple) else ix.elts):
            if isinstance(e, ast.Name):
                vals = repo.local_assigns(f).get(e.id, [])
                if vals and all(mask_like(repo, v, f) for v in vals):
                    return f"`{unparse(store, 60)}`"
                lo = loop_start(f, e.id)
                if lo:
                    return f"the indices from {lo}"
            elif mask_like(repo, e, f):
                return f"`{unparse(store, 60)}`"
        if isinstance(ix, ast.Tuple) and ix.elts:
            ix = ix.elts[-1]
        st = par.get(id(store))
        if isinstance(ix, ast.Slice) and ix.lower is not None and ix.upper is not None and isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant):
            return f"`{unparse(store, 60)}`"        # one constant in chosen ranges: the rest is meant to hold another
    return None


def mask_like(repo, e, f):
    if isinstance(e, ast.Compare):
        return not all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
        return mask_like(repo, e.left, f) and mask_like(repo, e.right, f)
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Call):
        return mask_like(repo, e.value, f)
    if isinstance(e, ast.Call):
        r = repo.resolve(e.func, f.module, f)
        if isinstance(r, Ext) and r.path in ("numpy.where", "numpy.flatnonzero", "numpy.nonzero") and len(e.args) == 1:
            return True
        if isinstance(r, Ext) and r.path in ("numpy.isnan", "numpy.isinf", "numpy.isfinite", "numpy.logical_not", "numpy.logical_and"):
            return True
    return False


def loop_start(f, name):
    """the positive constant a `for name in range(a, ...)` starts from"""
    out = None
    for n in f.walk():
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == name:
            c = n.iter
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and len(c.args) == 2 \
                    and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, int) and c.args[0].value > 0:
                out = c.args[0].value
            else:
                return None
    return out


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break))


def escaping(q):
    return terminates(q.orelse)


def scan_module(repo, g, rep, m):
    """module level statements (class bodies and defaults included)"""
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None] + n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.If) and "__name__" in unparse(n.test):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        if isinstance(n, (ast.Attribute, ast.Name)):
            r = repo.resolve(n, m, None)
            if isinstance(r, Ext) and is_global_random(r.path) and r.path not in SEEDED_CTORS:
                rep.add("global-random", f"{m.name} {r.path}", f"{m.rel}:{n.lineno}", f"`{unparse(n)}` is process-global random state")
            return
        if isinstance(n, ast.Call):
            r = repo.resolve(n.func, m, None)
            if isinstance(r, Ext) and r.path in SEEDED_CTORS:
                args = list(n.args) + [k.value for k in n.keywords]
                if not args or all(isinstance(a, ast.Constant) and a.value is None for a in args):
                    rep.add("unseeded-generator", f"{m.name}", f"{m.rel}:{n.lineno}", f"`{unparse(n)}` at module level")
                else:
                    rep.add("unseeded-generator", f"{m.name}", f"{m.rel}:{n.lineno}", f"`{unparse(n)}`: a generator shared by all runs of the process")
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    visit(m.tree)


def parents_of(f):
    if not hasattr(f, "_par"):
        d = {}
        for s in [f.node]:
            for n in ast.walk(s):
                for ch in ast.iter_child_nodes(n):
                    d[id(ch)] = n
        f._par = d
    return f._par


def wrapped_in(f, node, names):
    p = parents_of(f).get(id(node))
    return isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in names


def in_order_position(f, c):
    """id()/hash() value used otherwise than for membership, equality or as a dictionary key"""
    par = parents_of(f)
    p = par.get(id(c))
    if isinstance(p, ast.Compare):
        return not all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in p.ops)
    if isinstance(p, ast.Subscript) and p.slice is c:
        return False
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("add", "get", "discard", "remove", "pop", "setdefault"):
        return False
    if isinstance(p, (ast.Assign, ast.SetComp, ast.Set, ast.DictComp, ast.FormattedValue, ast.JoinedStr)):
        return False
    return True


# ------------------------------------------------------------------------------------------ sets
def set_expr(repo, e, f, depth=0):
    """None if not a set, else True when the elements are known to be integers / not hash-randomised, 'unknown' otherwise"""
    if e is None or depth > 5:
        return None
    if isinstance(e, ast.Set):
        return "int" if all(intlike(repo, x, f) for x in e.elts) else "unknown"
    if isinstance(e, ast.SetComp):
        return "int" if intlike(repo, e.elt, f) or comp_int(repo, e, f) else "unknown"
    if isinstance(e, ast.Call):
        r = repo.resolve(e.func, f.module, f)
        if isinstance(r, Ext) and r.path in ("builtins.set", "builtins.frozenset"):
            if not e.args:
                return "empty"
            return "int" if intlike_iter(repo, e.args[0], f) else "unknown"
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "difference", "intersection", "symmetric_difference"):
            b = set_expr(repo, e.func.value, f, depth + 1)
            if b:
                return b
        return None
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
        a, b = set_expr(repo, e.left, f, depth + 1), set_expr(repo, e.right, f, depth + 1)
        if a or b:
            if isinstance(e.op, (ast.Sub, ast.BitAnd)):
                return a or b
            return "unknown" if "unknown" in (a, b) else "int"
        return None
    if isinstance(e, ast.Name):
        if e.id not in repo.local_names(f):
            return None
        vals = repo.local_assigns(f).get(e.id, [])
        ks = [set_expr(repo, v, f, depth + 1) for v in vals if v is not None and not (isinstance(v, ast.Name) and v.id == e.id)]
        ks = [k for k in ks if k]
        if not ks:
            return None
        if "unknown" in ks:
            return "unknown"
        # what is added to it
        for n in f.walk():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                if n.func.attr == "add" and n.args and not intlike(repo, n.args[0], f):
                    return "unknown"
                if n.func.attr == "update" and n.args and not intlike_iter(repo, n.args[0], f):
                    return "unknown"
        return "int"
    return None


def comp_int(repo, comp, f):
    gens = {nm: gnr for gnr in comp.generators for nm in target_names(gnr.target)}
    e = comp.elt
    return isinstance(e, ast.Name) and e.id in gens and intlike_iter(repo, gens[e.id].iter, f)


def intlike(repo, e, f, depth=0):
    if depth > 4 or e is None:
        return False
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, float, bool))
    if isinstance(e, ast.BinOp):
        return intlike(repo, e.left, f, depth + 1) and intlike(repo, e.right, f, depth + 1)
    if isinstance(e, ast.Tuple):
        return all(intlike(repo, x, f, depth + 1) for x in e.elts)
    if isinstance(e, ast.Call):
        r = repo.resolve(e.func, f.module, f)
        if isinstance(r, Ext) and r.path in ("builtins.int", "builtins.len", "builtins.round", "numpy.argmin", "numpy.argmax"):
            return True
        return isinstance(e.func, ast.Attribute) and e.func.attr in ("argmin", "argmax", "integers", "item")
    if isinstance(e, ast.Name):
        for n in f.walk():
            if isinstance(n, (ast.For, ast.comprehension)):
                t, it = n.target, n.iter
                if isinstance(t, ast.Name) and t.id == e.id:
                    return intlike_iter(repo, it, f, depth + 1)
                if isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name) and t.elts[0].id == e.id \
                        and isinstance(it, ast.Call) and dotted(it.func) == "enumerate":
                    return True
        vals = repo.local_assigns(f).get(e.id, [])
        return bool(vals) and all(v is not None and intlike(repo, v, f, depth + 1) for v in vals)
    return False


def intlike_iter(repo, e, f, depth=0):
    if depth > 4 or e is None:
        return False
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return all(intlike(repo, x, f, depth + 1) for x in e.elts)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        return intlike(repo, e.elt, f, depth + 1) or comp_int(repo, e, f)
    if isinstance(e, ast.Subscript):
        return intlike_iter(repo, e.value, f, depth + 1)
    if isinstance(e, ast.Call):
        r = repo.resolve(e.func, f.module, f)
        if isinstance(r, Ext) and r.path in INT_SOURCES:
            return True
        if isinstance(r, Ext) and r.path in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.reversed") and e.args:
            return intlike_iter(repo, e.args[0], f, depth + 1)
        return isinstance(e.func, ast.Attribute) and e.func.attr in ("argsort", "nonzero", "integers", "permutation")
    if isinstance(e, ast.Name):
        if set_expr(repo, e, f, depth + 1) == "int":
            return True
        vals = repo.local_assigns(f).get(e.id, [])
        return bool(vals) and all(v is not None and intlike_iter(repo, v, f, depth + 1) for v in vals)
    return False


def set_order(repo, g, rep, f):
    par = parents_of(f)

    def report(n, what):
        rep.add("nondeterministic-source", f"{f.id} set {unparse(what, 40)}", f"{f.module.rel}:{n.lineno} {f.qual}",
                f"the iteration order of the set `{unparse(what, 60)}` reaches ordered data")

    for n in f.walk():
        its = []
        if isinstance(n, ast.For):
            its = [n.iter]
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            p = par.get(id(n))
            if isinstance(p, ast.Call):
                r = repo.resolve(p.func, f.module, f)
                if isinstance(r, Ext) and r.path in UNORDERED_SINKS:
                    continue
            its = [x.iter for x in n.generators]
        elif isinstance(n, ast.Call):
            r = repo.resolve(n.func, f.module, f)
            if isinstance(r, Ext) and r.path in ORDERED_SINKS:
                p = par.get(id(n))
                if isinstance(p, ast.Call):
                    rr = repo.resolve(p.func, f.module, f)
                    if isinstance(rr, Ext) and rr.path in UNORDERED_SINKS:
                        continue
                its = list(n.args)
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args:
                its = [n.func.value]
        for it in its:
            k = set_expr(repo, it, f)
            if k:
                rep.count("set_iterations")
                if k == "unknown":
                    report(n, it)


# ---------------------------------------------------------------------------------- Algorithm.setup
def check_setup(repo, g, rep):
    """the run's generator is bound to default_rng(<seed attribute>) on every path, after the options were stored"""
    setup = repo.func("pymoo.core.algorithm:Algorithm.setup")
    flow = inline_self_calls(repo, setup)
    last_opts = first_bind = None
    for i, (fn, n) in enumerate(flow):
        if writes_options(n, fn):
            last_opts = i
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(isinstance(t, ast.Attribute) and t.attr == "random_state" for t in ts):
                first_bind = i
                uses_seed = any(isinstance(x, ast.Attribute) and x.attr == "seed" for x in ast.walk(n.value)) or any(
                    isinstance(x, ast.Name) and any(isinstance(y, ast.Attribute) and y.attr == "seed"
                                                    for v in repo.local_assigns(fn).get(x.id, []) if v is not None for y in ast.walk(v))
                    for x in ast.walk(n.value)) or any(isinstance(x, ast.Name) and "seed" in x.id for x in ast.walk(n.value)) \
                    or (isinstance(n.value, ast.Call) and any(isinstance(t, Func) for t in repo.resolve_call(n.value, fn)))
                if not uses_seed:
                    rep.add("run-generator", "Algorithm.setup seed", f"{fn.module.rel}:{n.lineno} {fn.qual}",
                            f"`{unparse(n)}`: the run's generator does not depend on the seed")
    if first_bind is None:
        rep.add("run-generator", "Algorithm.setup missing", setup.loc, "setup() does not create the run's generator on its straight-line path")
        return
    rep.count("setup_bindings")
    if last_opts is not None and last_opts > first_bind:
        rep.add("run-generator", "Algorithm.setup order", setup.loc,
                "the generator is created before the options (seed=...) given to setup() are stored on the algorithm")


def inline_self_calls(repo, f, depth=0):
    """straight-line statements of f in order, with the bodies of self-helpers spliced in (loops/ifs kept whole)"""
    out = []
    for s in f.body:
        call = s.value if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) else None
        if call is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
                and call.func.value.id == f.selfname and depth < 3:
            t = f.cls.lookup(call.func.attr) if f.cls else None
            if t is not None and t.module is f.module and t.name != "_setup":
                out += inline_self_calls(repo, t, depth + 1)
                continue
        out.append((f, s))
    return out


def writes_options(n, fn):
    for x in ast.walk(n):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "__dict__":
                    return True
        if isinstance(x, ast.Call):
            d = dotted(x.func) or ""
            if d.endswith("__dict__.update") or d == "setattr":
                return True
    return False


def check_wrapper(repo, g, rep):
    dec = repo.func(DECORATOR)
    # innermost function that calls the wrapped callable
    wrappers = [f for f in repo.funcs.values() if f.module is dec.module and f.parent is not None
                and any(f2 is dec for f2 in ancestors(f)) and f.kwarg]
    if not wrappers:
        raise AnchorMissing("wrapper inside default_random_state")
    for w in wrappers:
        rep.count("decorator_wrappers")
        names = [p for p in w.args + w.kwonly if "random" in p]
        if not names:
            rep.add("default-wrapper", "no-parameter", w.loc, "the wrapper takes no random_state")
            continue
        p = names[0]
        # rebinding of the parameter only under `if p is None`
        for n in w.walk():
            if isinstance(n, ast.Assign) and any(p in target_names(t) for t in n.targets):
                if not under_none_test(w, n, p):
                    rep.add("default-wrapper", "rebinding", f"{w.module.rel}:{n.lineno} {w.qual}", f"`{unparse(n)}` replaces a generator the caller passed")
        for c in w.walk():
            if isinstance(c, ast.Call):
                r = repo.resolve(c.func, w.module, w)
                if isinstance(r, Ext) and r.path in SEEDED_CTORS and not uses_seed(repo, w, c):
                    rep.add("default-wrapper", "seed-ignored", f"{w.module.rel}:{c.lineno} {w.qual}",
                            f"`{unparse(c)}` is not created from the `seed` given to the call")
        calls = [c for c in w.walk() if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("func", "f", "fn", "function")]
        for c in calls:
            kw = {k.arg: k.value for k in c.keywords if k.arg}
            v = kw.get("random_state")
            if v is None or not g.is_rs(v, w):
                rep.add("default-wrapper", "not-forwarded", f"{w.module.rel}:{c.lineno} {w.qual}", f"`{unparse(c)}` does not forward the generator")


def uses_seed(repo, w, c):
    """the arguments of `c` are computed from the wrapper's `seed` keyword (kwargs["seed"], kwargs.pop("seed", ..), a parameter seed)"""
    todo = list(c.args) + [k.value for k in c.keywords]
    seen = set()
    while todo:
        e = todo.pop()
        for x in ast.walk(e):
            if isinstance(x, (ast.Call, ast.Subscript)):
                keys = [a for a in (x.args if isinstance(x, ast.Call) else [x.slice])]
                if any(isinstance(a, ast.Constant) and a.value == "seed" for a in keys):
                    return True
                if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == w.kwarg for a in keys + [k.value for k in x.keywords]):
                    return True                     # handed to a helper
            if isinstance(x, ast.Name) and x.id not in seen:
                seen.add(x.id)
                if x.id in w.args + w.kwonly and "seed" in x.id:
                    return True
                todo += repo.local_assigns(w).get(x.id, [])
    return False


def ancestors(f):
    p = f.parent
    while p is not None:
        yield p
        p = p.parent


def under_none_test(f, node, p):
    par = parents_of(f)
    x = node
    while id(x) in par:
        q = par[id(x)]
        if isinstance(q, ast.If):
            t = unparse(q.test)
            inbody = any(x is s for s in q.body)
            if inbody and t in (f"{p} is None", f"{p} == None", f"not {p}", f"None is {p}"):
                return True
            if not inbody and t in (f"{p} is not None", p):
                return True
        if isinstance(q, ast.IfExp):
            return True
        x = q
    # `p = X if p is None else p`
    v = node.value
    if isinstance(v, ast.IfExp) and p in unparse(v.test) and "None" in unparse(v.test):
        return any(isinstance(z, ast.Name) and z.id == p for z in (v.body, v.orelse))
    return False


SELFTESTS = [("random", {"pymoo/util/__init__.py": """
    import numpy as np
    def default_random_state(func_or_seed=None, *, seed=None):
        def decorator(func):
            def wrapper(*args, random_state=None, **kwargs):
                if random_state is None:
                    random_state = np.random.default_rng(kwargs.pop("seed", seed))
                return func(*args, random_state=random_state, **kwargs)
            return wrapper
        return decorator
    """, "pymoo/a.py": """
    import time, random, os
    import numpy as np
    from pymoo.util import default_random_state

    @default_random_state
    def draw(n, random_state=None):
        return random_state.random(n)

    def through(n, **kwargs):
        return draw(n, **kwargs)

    class Op:
        def do(self, problem, X, *args, random_state=None, **kwargs):
            good(X, random_state)
            return self._do(problem, X, *args, random_state=random_state, **kwargs)

        def _do(self, problem, X, *args, random_state=None, **kwargs):
            return X

    class Shift(Op):
        def _do(self, problem, X, *args, random_state=None, **kwargs):
            return X + random_state.random(len(X))

    def good(X, random_state):
        return draw(len(X), random_state=random_state)

    def good_forward(X, **kwargs):
        return through(len(X), **kwargs)

    def good_loop(X, random_state):
        out = []
        for x in X:
            out.append(draw(len(x), random_state=random_state))
        return out

    def good_child(random_state):
        return draw(3, random_state=np.random.default_rng(random_state.integers(100)))

    def bad_missing(X, random_state):
        return draw(len(X))

    def bad_through(X, random_state):
        return through(len(X))

    def bad_operator(problem, X):
        return Shift().do(problem, X)

    def bad_sometimes(X, random_state):
        return draw(len(X), random_state=random_state if len(X) > 3 else None)

    def bad_value(X):
        return draw(len(X), random_state=3)

    def bad_global(X):
        return np.random.random(len(X))

    def bad_stdlib(X):
        return random.shuffle(X)

    def bad_ctor(X):
        return np.random.default_rng().random(len(X))

    def bad_clock_seed(X):
        return np.random.default_rng(int(time.time())).random(len(X))

    def bad_constant(X):
        s = 10
        return np.random.default_rng(s + 1).random(len(X))

    def bad_time(X):
        return X + time.time()

    def bad_set(names):
        return [e for e in set(names)]

    def good_set(names):
        return sorted(set(names))

    def good_ints(n):
        return [e for e in set(range(n))]

    class Run:
        def __init__(self, seed):
            self.random_state = np.random.default_rng(seed)

        def bad_rebind(self):
            self.random_state = object()
    """}, [("generator-not-passed", "pymoo.a:bad_missing -> draw"), ("generator-not-passed", "pymoo.a:bad_through -> through"),
           ("generator-not-passed", "pymoo.a:bad_operator -> Shift().do"), ("bad-generator", "pymoo.a:bad_value -> draw"),
           ("bad-generator", "pymoo.a:bad_sometimes -> draw"),
           ("global-random", "pymoo.a:bad_global numpy.random.random"), ("global-random", "pymoo.a:bad_stdlib random.shuffle"),
           ("unseeded-generator", "pymoo.a:bad_ctor"), ("unseeded-generator", "pymoo.a:bad_clock_seed"),
           ("nondeterministic-source", "pymoo.a:bad_clock_seed time.time"), ("foreign-generator", "pymoo.a:bad_constant"),
           ("nondeterministic-source", "pymoo.a:bad_time time.time"), ("nondeterministic-source", "pymoo.a:bad_set set set(names)"),
           ("generator-attribute", "pymoo.a:Run.bad_rebind")]),
    ("seeds and memory", {"pymoo/util/__init__.py": """
    import numpy as np
    def default_random_state(func_or_seed=None, *, seed=None):
        def decorator(func):
            def wrapper(*args, random_state=None, **kwargs):
                if random_state is None:
                    use = seed
                    kwargs.pop("seed", None)
                    random_state = np.random.default_rng(use)
                return func(*args, random_state=random_state, **kwargs)
            return wrapper
        return decorator
    """, "pymoo/b.py": """
    import numpy as np

    def bad_or(seed):
        return np.random.default_rng(seed or None)

    class A:
        def bad_if(self):
            return np.random.default_rng(self.seed if self.seed else None)

        def bad_alias(self, **kwargs):
            s = kwargs.get("seed")
            if not s:
                s = 7
            return s

        def good(self):
            return np.random.default_rng(self.seed if self.seed is not None else 1)

    def bad_never(pop):
        m = np.empty(len(pop), dtype=bool)
        return m

    def bad_mask(F):
        r = np.empty(len(F))
        r[F > 0] = 1.0
        return r

    def bad_case(F):
        r = np.empty(len(F))
        for i in range(len(F)):
            if F[i] > 0:
                r[i] = 1.0
        return r

    def bad_first(F):
        r = np.empty(len(F))
        for i in range(1, len(F)):
            r[i] = F[i] - F[i - 1]
        return r

    def bad_ranges(F, cuts):
        r = np.empty(len(F), dtype=bool)
        for a, b in cuts:
            r[a:b] = True
        return r

    def mark(F, r):
        r[F > 0] = True
        return r

    def fill(F, r):
        for k in range(len(F)):
            r[k] = F[k]
        return r

    def bad_handed(F):
        return mark(F, np.empty(len(F), dtype=bool))

    def good_handed(F):
        return fill(F, np.empty(len(F), dtype=bool))

    def good_chunks(F):
        r = np.empty(len(F))
        for i in range(0, len(F), 10):
            r[i:i + 10] = F[i:i + 10]
        return r

    def good_both(F):
        r = np.empty(len(F))
        m = F > 0
        r[m] = 1.0
        r[~m] = 0.0
        return r

    def good_loop(F):
        r = np.empty(len(F))
        for i in range(1, len(F) + 1):
            r[i - 1] = F[i - 1]
        return r

    def good_out(F):
        r = np.empty(len(F))
        np.max(F, axis=0, out=r)
        return r

    def good_fill(F):
        r = np.empty(len(F))
        r.fill(3.0)
        return r

    def good_else(F):
        r = np.empty(len(F))
        for i in range(len(F)):
            if F[i] > 0:
                r[i] = 1.0
            else:
                r[i] = 0.0
        return r

    def good_count(F):
        r = np.empty(len(F))
        k = 0
        while k < len(F):
            r[k] = F[k]
            k += 1
        return r

    def good_obj(F):
        r = np.empty(len(F), dtype=object)
        return r
    """}, [("default-wrapper", "seed-ignored"), ("seed-truth", "pymoo.b:bad_or"), ("seed-truth", "pymoo.b:A.bad_if"), ("seed-truth", "pymoo.b:A.bad_alias"),
           ("uninitialised", "pymoo.b:bad_never m"), ("uninitialised", "pymoo.b:bad_mask r"), ("uninitialised", "pymoo.b:bad_case r"),
           ("uninitialised", "pymoo.b:bad_first r"), ("uninitialised", "pymoo.b:bad_ranges r"),
           ("uninitialised", "pymoo.b:bad_handed np.empty(len(F), dtype=bool)")])]
