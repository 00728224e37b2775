"""P12 - parallel evaluation returns results in the order of the inputs."""
import ast
from sa.model import *
from sa.effects import Effects
from sa.util import *
from sa.symb import Ctx, canon, enter, helper

EXPLANATION = (
    "Order-preservation dataflow analysis. For every runner (the back-ends in pymoo.parallelization and the sequential default) each returned value is traced back to the sequence of inputs: "
    "comprehensions, maps, indexed stores, futures gathered in the order they were submitted and helper functions keep one result per input in order; consuming futures in completion order "
    "without restoring the index, filters, skipped iterations, sorting, reversing, sets and truncated ranges do not. The consumer of the runner (elementwise evaluation) has to take over every "
    "result unconditionally, and the population setter has to use the same index for solution and value. No handler on the way may swallow an exception of an evaluation, and the function "
    "object that workers call concurrently may not keep state between calls. Between the solutions and their values no array may be sorted, filtered, reversed or filled from the front."
)
ASSUMPTIONS = ["map, starmap, gather, get and compute of the supported back-ends return results in the order of their argument and re-raise exceptions (their documented behaviour)",
               "options a user passes through to a back-end (for example return_as of joblib) are the user's choice"]
UNORDERED = {"as_completed", "imap_unordered", "map_unordered", "starmap_unordered"}
WAITS = {"wait"}
SHUFFLED = {"reversed", "set", "frozenset", "filter", "shuffle", "permutation", "unique", "islice", "compress", "sample", "fromkeys", "random_permutations"}
SAME = {"list", "tuple", "array", "asarray", "iter", "tqdm"}


class Bad:
    def __init__(self, why, node, f):
        self.why, self.node, self.f = why, node, f


def run(repo, rep):
    rep.rule("order-lost", "a runner returns results that are not in the order of the inputs, or not one for each")
    rep.rule("result-dropped", "the consumer of a runner does not take over every result")
    rep.rule("failure-swallowed", "an exception of an evaluation is caught and not raised again")
    rep.rule("worker-state", "the function object called by the workers keeps state between calls")
    rep.rule("written-elsewhere", "the value at one index is stored on the solution at another index")
    rep.rule("rows-reordered", "between the solutions and their values an array is sorted, filtered, reversed or filled from the front")
    eff = Effects(repo)
    runners = find_runners(repo)
    chain = []
    for c in runners:
        m = c.lookup("__call__")
        if m is None:
            continue
        rep.count("runners")
        rep.sample("runner", c.id)
        chain.append((m, c))
        ps = [a for a in m.all_params if a != m.selfname]
        if len(ps) < 2:
            continue
        a = Align(repo, rep)
        ctx = Ctx(repo, m, cls=c)
        a.inputs = {(m.id, ps[1])}
        for v in a.returns(m, ctx):
            rep.count("returned_values")
            if isinstance(v, Bad):
                rep.add("order-lost", f"{c.id}", f"{v.f.module.rel}:{getattr(v.node, 'lineno', v.f.lineno)} {v.f.qual}",
                        f"`{unparse(v.node, 90)}` {v.why}: the results of {c.name} do not come back in the order of the solutions, one for each")
            elif v == "ok":
                rep.count("returned_in_order")
            else:
                rep.notes.append(f"order of a value returned by {c.id} not determined")
    consumers(repo, rep, chain)
    setter(repo, rep)
    rows(repo, rep)
    swallowed(repo, rep, chain)
    workers(repo, eff, rep)
    if not getattr(repo, "mini", False):
        for k, m in [("runners", 4), ("returned_values", 4), ("consumers", 1), ("functions_on_the_way", 6), ("worker_functions", 1), ("array_passages", 10)]:
            rep.floor(k, m)


def find_runners(repo):
    out = {c for c in repo.classes.values() if c.module.name.startswith("pymoo.parallelization") and c.lookup("__call__") is not None}
    for f in repo.funcs.values():
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg.endswith("runner") and isinstance(d, ast.Call):
                r = repo.resolve(d.func, f.module, None)
                if isinstance(r, Class):
                    out.add(r)
    return sorted(out, key=lambda c: c.id)


def last(fn):
    return fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""


class Align:
    """how a value relates to the inputs: 'ok' one entry per input in order, Bad, or None (not determined)"""

    def __init__(self, repo, rep):
        self.repo, self.rep, self.inputs, self.busy = repo, rep, set(), set()

    def returns(self, f, ctx):
        ys = [n for n in f.walk() if isinstance(n, (ast.Yield, ast.YieldFrom))]
        if ys:
            return [self.collected(f, ctx, y, y) if isinstance(y, ast.Yield) else self.val(y.value, ctx) for y in ys]
        return [self.val(n.value, ctx) for n in f.walk() if isinstance(n, ast.Return) and n.value is not None]

    @staticmethod
    def worst(vs):
        vs = list(vs)
        for v in vs:
            if isinstance(v, Bad):
                return v
        return "ok" if vs and all(v == "ok" for v in vs) else None

    def val(self, e, ctx, depth=0):
        f = ctx.f
        if e is None or depth > 25:
            return None
        if isinstance(e, (ast.Starred, ast.Await, ast.NamedExpr, ast.YieldFrom)):
            return self.val(e.value, ctx, depth + 1)
        if isinstance(e, ast.Name):
            return self.name(e, ctx, depth)
        if isinstance(e, ast.IfExp):
            return self.worst([self.val(e.body, ctx, depth + 1), self.val(e.orelse, ctx, depth + 1)])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            vs = [self.val(g.iter, ctx, depth + 1) for g in e.generators[:1]]
            for g in e.generators:
                if g.ifs:
                    return Bad("leaves out results", e, f)
            if isinstance(e, ast.SetComp):
                return Bad("loses the order", e, f)
            if isinstance(e, ast.DictComp) and vs[0] == "ok" and self.inputs_of(e.generators[0].iter, ctx):
                b = self.merges(e.key, self.element_names(e.generators[0].target, e.generators[0].iter), e, f)
                if b is not None:
                    return b
            q = self.queue(e.elt if not isinstance(e, ast.DictComp) else e.value, e, ctx)
            return q or self.worst(vs)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                s = e.slice
                v = self.val(e.value, ctx, depth + 1)
                if v is None:
                    return None
                if s.lower is None and s.upper is None and s.step is None:
                    return v
                if s.step is not None and isinstance(s.step, ast.UnaryOp):
                    return Bad("reverses the order", e, f)
                if s.lower is not None and (s.upper is not None) and s.step is None and not isinstance(s.lower, ast.Constant):
                    return v            # one chunk: the loop over the chunks decides
                if isinstance(v, str):
                    return Bad("drops a part of the solutions", e, f)
                return v
            return self.val(e.value, ctx, depth + 1) if isinstance(e.slice, ast.Constant) and isinstance(e.value, ast.Call) else None
        if isinstance(e, ast.Call):
            return self.call(e, ctx, depth)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.worst([self.val(e.left, ctx, depth + 1), self.val(e.right, ctx, depth + 1)])
        return None

    def inputs_of(self, it, ctx):
        """iterates over the solutions themselves, not over jobs made from them"""
        if isinstance(it, ast.Call) and last(it.func) in ("enumerate", "list", "tuple", "zip"):
            return any(self.inputs_of(a, ctx) for a in it.args)
        if isinstance(it, ast.Name):
            if (ctx.f.id, it.id) in self.inputs:
                return True
            if ctx.up is not None and it.id in ctx.args and it.id not in self.repo.local_assigns(ctx.f):
                return self.inputs_of(ctx.args[it.id], ctx.up)
            vs = [v for v in self.repo.local_assigns(ctx.f).get(it.id, []) if isinstance(v, ast.expr)]
            return len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Call)) and not (isinstance(vs[0], ast.Name) and vs[0].id == it.id) and self.inputs_of(vs[0], ctx)
        return False

    def queue(self, elt, e, ctx):
        """elements taken from a queue in the order they arrive"""
        bound = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for c in ast.walk(elt):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("get", "get_nowait", "recv") and not c.args:
                if not any(isinstance(n, ast.Name) and n.id in bound for n in ast.walk(c.func.value)):
                    return Bad("takes the results in the order they arrive", e, ctx.f)
        return None

    def call(self, e, ctx, depth):
        f, fn = ctx.f, e.func
        nm = last(fn)
        if nm in UNORDERED:
            return Bad("takes the results in the order the workers finish", e, f)
        if nm in SHUFFLED:
            vs = [self.val(a, ctx, depth + 1) for a in e.args]
            return next((v for v in vs if isinstance(v, Bad)), Bad("does not keep one result per solution in order", e, f)) if any(v is not None for v in vs) else None
        if nm == "sorted":
            v = self.val(e.args[0], ctx, depth + 1) if e.args else None
            return self.indexed(e.args[0], ctx, e, v)
        if nm == "range":
            stop = e.args[0] if len(e.args) == 1 else e.args[1] if len(e.args) > 1 else None
            return self.length(stop, ctx, depth, e)
        if nm in ("values", "items", "keys") and isinstance(fn, ast.Attribute) and not e.args:
            return self.val(fn.value, ctx, depth + 1)
        if nm == "array_split" and e.args:
            return self.val(e.args[0], ctx, depth + 1)
        for k in e.keywords:
            if k.arg == "return_exceptions" and isinstance(k.value, ast.Constant) and k.value.value is True:
                return Bad("returns failures as results", e, f)
            if k.arg == "errors" and isinstance(k.value, ast.Constant) and k.value.value == "skip":
                return Bad("leaves out failing evaluations", e, f)
            if k.arg == "return_as" and isinstance(k.value, ast.Constant) and "unordered" in str(k.value.value):
                return Bad("takes the results in the order the workers finish", e, f)
        t = helper(ctx, e)
        if t is not None and t not in self.busy and t.name != "__init__":
            self.busy.add(t)
            v = self.worst(self.returns(t, enter(ctx, e, t)))
            self.busy.discard(t)
            if v is not None:
                return v
        vs = [self.val(a, ctx, depth + 1) for a in list(e.args) + [k.value for k in e.keywords if k.arg]]
        b = next((v for v in vs if isinstance(v, Bad)), None)
        if b is not None:
            return b
        if isinstance(fn, (ast.Call, ast.Name)):
            v = self.call(fn, ctx, depth + 1) if isinstance(fn, ast.Call) else self.name(fn, ctx, depth + 1)
            if isinstance(v, Bad):
                return v
        if any(v == "ok" for v in vs):
            return "ok"
        # parallel = Parallel(return_as=...): look at how the callable was made
        return None

    def length(self, e, ctx, depth, node):
        if isinstance(e, ast.Call) and last(e.func) == "len" and e.args:
            return self.val(e.args[0], ctx, depth + 1)
        if isinstance(e, ast.Name):
            vs = [v for v in self.repo.local_assigns(ctx.f).get(e.id, []) if isinstance(v, ast.expr)]
            return self.worst([self.length(v, ctx, depth + 1, node) for v in vs]) if vs and depth < 10 else None
        if isinstance(e, ast.BoolOp):
            vs = [self.length(v, ctx, depth + 1, node) if depth < 10 else None for v in e.values]
            return self.worst(vs)
        if isinstance(e, ast.BinOp):
            l, r = (self.length(x, ctx, depth + 1, node) if depth < 10 else None for x in (e.left, e.right))
            b = next((v for v in (l, r) if isinstance(v, Bad)), None)
            if b is not None:
                return b
            if l == "ok" and (isinstance(e.op, ast.FloorDiv) or isinstance(e.op, ast.Sub)):
                return Bad("does not cover all solutions", node, ctx.f)
        return None

    def merges(self, key, names, node, f):
        """equal solutions are one entry of a dictionary that is keyed by the solution"""
        while isinstance(key, ast.Call) and (last(key.func) in ("tuple", "str", "bytes", "tobytes", "hash", "repr", "frozenset", "tostring")):
            key = key.args[0] if key.args else key.func.value if isinstance(key.func, ast.Attribute) else ast.Constant(value=None)
        if isinstance(key, ast.Name) and key.id in names:
            return Bad("keeps one result for several equal solutions", node, f)
        return None

    @staticmethod
    def element_names(target, it):
        """names bound to solutions by a loop (the index of enumerate is none)"""
        if isinstance(it, ast.Call) and last(it.func) == "enumerate" and isinstance(target, (ast.Tuple, ast.List)):
            return {n.id for t in target.elts[1:] for n in ast.walk(t) if isinstance(n, ast.Name)}
        if isinstance(it, ast.Call) and last(it.func) == "range":
            return set()
        return {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}

    def indexed(self, e, ctx, node, v):
        """sorting entries that carry their index restores the order"""
        for x in self.entries(e, ctx):
            if not (isinstance(x, ast.Tuple) and len(x.elts) >= 2):
                return Bad("sorts the results", node, ctx.f) if v is not None else None
            return "ok"
        return Bad("sorts the results", node, ctx.f) if v == "ok" else None

    def entries(self, e, ctx):
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            yield e.elt
        if isinstance(e, ast.Name):
            for n in ctx.f.walk():
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id and n.args:
                    yield n.args[0]
            for v in self.repo.local_assigns(ctx.f).get(e.id, []):
                if isinstance(v, (ast.ListComp, ast.GeneratorExp)):
                    yield v.elt

    def name(self, e, ctx, depth):
        f = ctx.f
        if (f.id, e.id) in self.inputs:
            return "ok"
        asg = self.repo.local_assigns(f).get(e.id, [])
        if ctx.up is not None and e.id in ctx.args and not asg:
            return self.val(ctx.args[e.id], ctx.up, depth + 1)
        if (f, e.id) in self.busy:
            return None
        self.busy.add((f, e.id))
        try:
            vs, keyed = [], False
            for n in f.walk():
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            if not empty(n.value):
                                vs.append(self.val(n.value, ctx, depth + 1))
                        elif isinstance(t, (ast.Tuple, ast.List)) and e.id in target_names(t):
                            if isinstance(n.value, ast.Call) and last(n.value.func) in WAITS and isinstance(t.elts[0], ast.Name) and t.elts[0].id == e.id:
                                vs.append(Bad("takes the results in the order the workers finish", n.value, f))
                            else:
                                vs.append(None)
                        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id:
                            keyed = True
                            vs.append(self.collected(f, ctx, n, t))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    vs.append(self.collected(f, ctx, n, n))
                elif isinstance(n, ast.NamedExpr) and n.target.id == e.id:
                    vs.append(self.val(n.value, ctx, depth + 1))
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for it in n.items:
                        if it.optional_vars is not None and e.id in target_names(it.optional_vars) and isinstance(it.context_expr, ast.Call):
                            v = self.call(it.context_expr, ctx, depth + 1)
                            vs.append(v if isinstance(v, Bad) else None)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                    if n.func.attr in ("append", "extend", "add"):
                        vs.append(self.collected(f, ctx, n, n) if n.func.attr != "add" else Bad("loses the order", n, f))
                    elif n.func.attr in ("reverse", "remove", "insert"):
                        vs.append(Bad("changes the order", n, f))
                    elif n.func.attr == "sort":
                        r = self.indexed(e, ctx, n, "ok")
                        if r == "ok":
                            return "ok"
                        vs.append(r)
            return self.worst(vs)
        finally:
            self.busy.discard((f, e.id))

    def collected(self, f, ctx, n, at):
        """one entry added (n) per iteration of the loops around it"""
        loops, prev = [], n
        stored = isinstance(at, ast.Subscript)
        for a in ancestors(f.module, n):
            if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                break
            if isinstance(a, (ast.For, ast.AsyncFor, ast.While)):
                loops.append(a)
            elif isinstance(a, ast.If) and not balanced(a, n, f) and any(True for l in ancestors(f.module, a) if isinstance(l, (ast.For, ast.While, ast.AsyncFor))):
                return Bad("adds a result only under a condition", n, f)
            prev = a
        if not loops:
            return None
        for l in loops:
            for x in ast.walk(l):
                if isinstance(x, (ast.Continue, ast.Break)) and next(a for a in ancestors(f.module, x) if isinstance(a, (ast.For, ast.AsyncFor, ast.While))) is l and not isinstance(l, ast.While):
                    return Bad("leaves out results", x, f)
        l = loops[0] if len(loops) == 1 else loops[-1]
        if isinstance(l, ast.While):
            if any(isinstance(x, ast.Call) and (last(x.func) in UNORDERED | WAITS) for x in ast.walk(l)) and not stored:
                return Bad("takes the results in the order the workers finish", n, f)
            return "ok" if stored else None
        vs = [self.val(x.iter, ctx) for x in loops if not isinstance(x, ast.While)]
        b = next((v for v in vs if isinstance(v, Bad)), None)
        if b is not None:
            if stored and ("order" in b.why and "finish" in b.why or "arrive" in b.why):
                return "ok"             # the index is restored
            if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Tuple):
                return b
            return b
        if stored:
            for x in loops:
                if not isinstance(x, ast.While) and self.inputs_of(x.iter, ctx):
                    m = self.merges(at.slice, self.element_names(x.target, x.iter), n, f)
                    if m is not None:
                        return m
            return "ok"
        return "ok" if any(v == "ok" for v in vs) else None


def empty(e):
    return isinstance(e, (ast.List, ast.Dict)) and not getattr(e, "elts", getattr(e, "keys", None)) or isinstance(e, ast.Call) and last(e.func) in ("list", "dict", "empty", "zeros", "full", "deque") \
        and not any(isinstance(a, (ast.GeneratorExp, ast.ListComp)) for a in e.args) and not (last(e.func) in ("list", "dict") and e.args) or \
        isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.left, ast.List)


def adds(st, name):
    for n in ast.walk(st):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend"):
            return True
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) for t in n.targets) and not empty(n.value):
            return True
    return False


def balanced(i, n, f):
    """both branches of the test add an entry"""
    return bool(i.orelse) and any(adds(s, None) for s in i.body) and any(adds(s, None) for s in i.orelse)


# ------------------------------------------------------------------ the consumer
def consumers(repo, rep, chain):
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        for n in f.walk():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.endswith("runner") and isinstance(n.func.value, ast.Name) and n.func.value.id == f.selfname:
                rep.count("consumers")
                chain.append((f, f.cls))
                a = Align(repo, rep)
                ctx = Ctx(repo, f, cls=f.cls)
                ps = [p for p in f.all_params if p != f.selfname]
                args = list(n.args) + [k.value for k in n.keywords]
                a.inputs = {(f.id, p) for p in ps}
                for x in args[1:2]:
                    v = a.val(x, ctx)
                    if isinstance(v, Bad):
                        rep.add("order-lost", f"{f.id} inputs", f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(v.node)}` {v.why}: the runner is not given the solutions in order")
                taken(repo, rep, f, n)


def taken(repo, rep, f, call):
    """every element of the runner's results, and every entry of it, is appended to the outputs"""
    scopes = [(f, ctx_names(repo, f, call))]
    for g, names in scopes:
        for l in g.walk():
            if not isinstance(l, (ast.For, ast.AsyncFor)):
                continue
            if not uses(l.iter, names, call):
                continue
            rep.count("result_loops")
            it = l.iter
            if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
                rep.add("result-dropped", g.id, f"{g.module.rel}:{l.lineno} {g.qual}", f"`{unparse(it)}` leaves out results of the runner")
            if isinstance(it, ast.Call) and last(it.func) in SHUFFLED | {"sorted"}:
                rep.add("result-dropped", g.id, f"{g.module.rel}:{l.lineno} {g.qual}", f"`{unparse(it)}` changes the order of the results of the runner")
            for x in ast.walk(l):
                if isinstance(x, (ast.Break, ast.Continue)):
                    inner = next(a for a in ancestors(g.module, x) if isinstance(a, (ast.For, ast.AsyncFor, ast.While)))
                    if isinstance(x, ast.Break) and inner is l or isinstance(x, ast.Continue) and not followed(g, x):
                        rep.add("result-dropped", g.id, f"{g.module.rel}:{x.lineno} {g.qual}", "an iteration over the results of the runner is cut short: a result is not taken over")
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend"):
                    for a in ancestors(g.module, x):
                        if a is l:
                            break
                        if isinstance(a, ast.If) and not balanced(a, x, g):
                            rep.add("result-dropped", g.id, f"{g.module.rel}:{x.lineno} {g.qual}",
                                    f"`{unparse(x)}` takes over a result only if `{unparse(a.test)}`: the rows of the outputs no longer belong to the solutions")
    # helpers given the results
    for n in f.walk():
        if isinstance(n, ast.Call) and n is not call:
            for t in repo.resolve_call(n, f, fallback=False):
                if isinstance(t, Func):
                    m, *_ = bind_args(n, t)
                    ps = {p for p, v in m.items() if isinstance(v, ast.expr) and (v is call or isinstance(v, ast.Name) and v.id in scopes[0][1])}
                    if ps and (t, ps) not in scopes and len(scopes) < 4:
                        scopes.append((t, ps))
                        taken_in(repo, rep, t, ps)


def taken_in(repo, rep, t, ps):
    fake = ast.Name(id="__none__", ctx=ast.Load())
    for l in t.walk():
        if isinstance(l, ast.For) and uses(l.iter, ps, fake):
            for x in ast.walk(l):
                if isinstance(x, ast.Break) or isinstance(x, ast.Continue) and not followed(t, x):
                    rep.add("result-dropped", t.id, f"{t.module.rel}:{x.lineno} {t.qual}", "an iteration over the results of the runner is cut short: a result is not taken over")
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append":
                    for a in ancestors(t.module, x):
                        if a is l:
                            break
                        if isinstance(a, ast.If) and not balanced(a, x, t):
                            rep.add("result-dropped", t.id, f"{t.module.rel}:{x.lineno} {t.qual}", f"`{unparse(x)}` takes over a result only if `{unparse(a.test)}`")


def followed(g, x):
    """continue after the result was already taken over in the same branch"""
    st, blk = statement_of(g.module, x)[0], None
    for a in ancestors(g.module, st):
        for b in blocks_of(a):
            if st in b:
                return any(adds(s, None) for s in b[:b.index(st)])
    return False


def ctx_names(repo, f, call):
    names = set()
    for k, vs in repo.local_assigns(f).items():
        if any(v is call or isinstance(v, ast.Call) and last(v.func) in SAME and v.args and v.args[0] is call for v in vs if isinstance(v, ast.expr)):
            names.add(k)
    return names


def uses(it, names, call):
    return any(x is call or isinstance(x, ast.Name) and x.id in names for x in ast.walk(it))


# ------------------------------------------------------------------ storing the values
def setter(repo, rep):
    p = repo.cls("pymoo.core.population:Population", required=not getattr(repo, "mini", False))
    if p is None or p.lookup("set") is None:
        return
    f = p.lookup("set")
    fs = [f] + [t for n in f.walk() if isinstance(n, ast.Call) for t in repo.resolve_call(n, f, fallback=False) if isinstance(t, Func) and t.cls is p]
    for g in fs:
        ctx = Ctx(repo, g, cls=p)
        for n in g.walk():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "set" and isinstance(n.func.value, ast.Subscript) and len(n.args) == 2:
                idx = index_text(n.func.value.slice, ctx)
                rep.count("indexed_stores")
                for v in values_of(repo, g, n.args[1]):
                    for s in ast.walk(v):
                        if isinstance(s, ast.Subscript) and isinstance(s.value, ast.Name) and not isinstance(s.slice, ast.Constant):
                            if index_text(s.slice, ctx) != idx:
                                rep.add("written-elsewhere", g.id, f"{g.module.rel}:{n.lineno} {g.qual}",
                                        f"solution {unparse(n.func.value)} is given {unparse(s)}: the value belongs to another solution")


def index_text(e, ctx):
    return canon(e, ctx)


def values_of(repo, g, e, depth=0):
    if isinstance(e, ast.Name) and depth < 3:
        vs = [v for v in repo.local_assigns(g).get(e.id, []) if isinstance(v, ast.expr)]
        out = []
        for v in vs:
            out += values_of(repo, g, v, depth + 1) if not (isinstance(v, ast.Name) and v.id == e.id) else []
        return out or [e]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and not e.args:
        return []
    return [e]


# ------------------------------------------------------------------ arrays between solutions and values
PASSES = {"do", "evaluate", "_evaluate", "_evaluate_elementwise", "_evaluate_vectorized", "_format_dict", "elementwise_runner", "set"}
ORDER = {"argsort", "permutation", "unique", "nonzero", "flatnonzero", "where", "lexsort", "shuffle", "random_permutations", "choice", "argwhere", "argpartition"}
RESHUFFLE = {"unique", "flip", "flipud", "roll", "sort", "sorted", "reversed", "permutation", "shuffle", "delete", "set", "frozenset", "filter", "compress", "islice", "partition"}
BACK = {"insert", "appendleft", "extendleft", "reverse", "sort"}


def rows(repo, rep):
    todo = []
    pr, mp, ev = (repo.cls(n, required=False) for n in ("pymoo.core.problem:Problem", "pymoo.core.meta:Meta", "pymoo.core.evaluator:Evaluator"))
    for c, names in ((pr, PASSES - {"_evaluate", "set"}), (mp, PASSES - {"_evaluate", "set"}), (ev, {"eval", "_eval"})):
        for k in (c.family() if c is not None else ()):
            todo += [k.methods[nm] for nm in sorted(names) if nm in k.methods]
    seen = []
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        fl = Flow(repo, f)
        for n in f.walk():
            if isinstance(n, ast.Call):
                t = helper(Ctx(repo, f, cls=f.cls), n)
                if t is not None and t.name != "__init__" and (t.cls is f.cls and t.cls is not None or t.cls is None and t.module is f.module):
                    todo.append(t)
                nm = last(n.func)
                if nm in PASSES or isinstance(n.func, ast.Attribute) and n.func.attr.endswith("runner"):
                    for a in list(n.args) + [k.value for k in n.keywords if k.arg]:
                        fl.check(a, n, rep)
                elif isinstance(n.func, ast.Attribute) and nm in BACK and fl.carries(n.func.value) and not (nm == "insert" and ends(n)):
                    fl.report(n, n, rep)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) for t in n.targets):
                fl.check(n.value, n, rep)
            elif isinstance(n, ast.Return) and n.value is not None and f.name not in ("eval",):
                fl.check(n.value, n, rep)
            elif isinstance(n, ast.For) and any(isinstance(x, (ast.Assign, ast.Call)) and (isinstance(x, ast.Call) and last(x.func) in ("append", "extend", "set", "update") or isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) for t in x.targets)) for x in ast.walk(n)):
                fl.check(n.iter, n, rep)


def ends(n):
    """insert(len(list), value)"""
    a = n.args[0] if n.args else None
    return isinstance(a, ast.Call) and last(a.func) == "len"


class Flow:
    """which locals hold one entry per solution, and whether a value is made from one of them out of order"""

    def __init__(self, repo, f):
        self.repo, self.f = repo, f
        self.asg = repo.local_assigns(f)
        skip = {"return_values_of", "evaluate_values_of", "args", "kwargs", "problem", "N", "n", "names", "keys"}
        self.rows = {p for p in f.all_params if p != f.selfname and p not in skip}
        for _ in range(4):
            for n in f.walk():
                if isinstance(n, (ast.For, ast.comprehension)):
                    if self.carries(n.iter):
                        ts = n.target.elts[1:] if isinstance(n.iter, ast.Call) and last(n.iter.func) in ("items", "enumerate") and isinstance(n.target, (ast.Tuple, ast.List)) else [n.target]
                        self.rows |= {x.id for t in ts for x in ast.walk(t) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Assign) and self.carries(n.value):
                    for t in n.targets:
                        for e in (t.elts[:1] if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(e, ast.Name):
                                self.rows.add(e.id)

    def carries(self, e):
        if isinstance(e, ast.Name):
            return e.id in self.rows
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return self.carries(e.value)
        if isinstance(e, ast.Attribute):
            return False
        if isinstance(e, ast.Call):
            if last(e.func) in ("len", "isinstance", "default_shape", "hasattr", "range", "keys", "any", "all", "type", "ndim", "shape", "isnan"):
                return False
            return any(self.carries(a) for a in e.args) or isinstance(e.func, ast.Attribute) and self.carries(e.func.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return self.carries(e.generators[0].iter)
        if isinstance(e, ast.IfExp):
            return self.carries(e.body) or self.carries(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.carries(v) for v in e.values)
        return False

    def permutes(self, i, depth=0):
        """an index expression that is an order or a selection of the rows"""
        if isinstance(i, ast.Tuple):
            return bool(i.elts) and self.permutes(i.elts[0], depth)
        if isinstance(i, ast.Slice):
            if isinstance(i.step, ast.UnaryOp) and isinstance(i.step.op, ast.USub):
                return True             # reversed; or a part only (both ends given is one chunk of a loop)
            return i.lower is None and i.upper is not None and not (isinstance(i.upper, ast.Name) or isinstance(i.upper, ast.Call) and last(i.upper.func) == "len")
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, (ast.Invert, ast.Not)) or isinstance(i, ast.Compare):
            return True
        if isinstance(i, ast.Subscript):
            return self.permutes(i.value, depth)
        if isinstance(i, ast.Call):
            return last(i.func) in ORDER or last(i.func) in ("isfinite", "isnan", "sorted", "reversed", "all", "any", "logical_and", "logical_not", "logical_or")
        if isinstance(i, ast.Name) and depth < 4:
            return any(self.permutes(v, depth + 1) for v in self.asg.get(i.id, []) if isinstance(v, ast.expr) and not (isinstance(v, ast.Name) and v.id == i.id))
        return False

    def check(self, e, at, rep, depth=0, seen=None):
        seen = set() if seen is None else seen
        rep.count("array_passages") if depth == 0 else None
        if isinstance(e, ast.Name):
            if e.id in self.rows and e.id not in seen and depth < 8:
                seen.add(e.id)
                for v in self.asg.get(e.id, []):
                    if isinstance(v, ast.expr) and self.restored(e.id, v) is None:
                        self.check(v, at, rep, depth + 1, seen)
            return
        if isinstance(e, ast.Subscript):
            if self.carries(e.value):
                if self.permutes(e.slice) and not self.inverse(e):
                    self.report(e, at, rep)
                    return
                self.check(e.value, at, rep, depth + 1, seen)
            return
        if isinstance(e, ast.Call):
            nm = last(e.func)
            rec = e.func.value if isinstance(e.func, ast.Attribute) else None
            own = rec is not None and self.carries(rec)
            if nm == "sorted" and e.args and isinstance(e.args[0], ast.Call) and last(e.args[0].func) in ("items", "keys"):
                return                  # the names of the values, not the rows
            if nm in RESHUFFLE and (own or any(self.carries(a) for a in e.args)):
                self.report(e, at, rep)
                return
            if nm in ("reshape", "ravel", "flatten") and own | any(self.carries(a) for a in e.args) and any(k.arg == "order" and isinstance(k.value, ast.Constant) and k.value.value in ("F", "A", "K") for k in e.keywords):
                self.report(e, at, rep)
                return
            for a in list(e.args) + ([rec] if own else []):
                if isinstance(a, (ast.Call, ast.Subscript, ast.Name, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.Starred)):
                    self.check(a, at, rep, depth + 1, seen)
            return
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            g = e.generators[0]
            if self.carries(g.iter) and not (isinstance(g.iter, ast.Call) and last(g.iter.func) in ("items", "keys")):
                if isinstance(e, ast.SetComp) or g.ifs and not self.skips(e):
                    self.report(e, at, rep)
                    return
                self.check(g.iter, at, rep, depth + 1, seen)
            return
        if isinstance(e, ast.IfExp):
            for x in (e.body, e.orelse):
                self.check(x, at, rep, depth + 1, seen)
        if isinstance(e, (ast.BoolOp,)):
            for x in e.values:
                self.check(x, at, rep, depth + 1, seen)
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                self.check(x, at, rep, depth + 1, seen)
        if isinstance(e, ast.DictComp):
            self.check(e.value, at, rep, depth + 1, seen)
        if isinstance(e, ast.Starred):
            self.check(e.value, at, rep, depth + 1, seen)

    @staticmethod
    def skips(e):
        """the indices of what is not evaluated yet"""
        g = e.generators[0]
        return isinstance(g.iter, ast.Call) and last(g.iter.func) == "enumerate"

    def inverse(self, e):
        """values[argsort(order)] or values[inverse]: the order of the solutions again"""
        i = e.slice
        if isinstance(i, ast.Call) and last(i.func) == "argsort" and i.args:
            return isinstance(i.args[0], ast.Name) and self.permutes(i.args[0])
        if isinstance(i, ast.Name):
            for v in self.asg.get(i.id, []):
                if isinstance(v, ast.Call) and last(v.func) == "argsort" and v.args and isinstance(v.args[0], ast.Name) and self.permutes(v.args[0]):
                    return True
            for n in self.f.walk():     # u, inverse = np.unique(X, return_inverse=True)
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and any(k.arg == "return_inverse" for k in n.value.keywords) \
                        and any(isinstance(t, ast.Name) and t.id == i.id for t in n.targets[0].elts[1:]):
                    return True
        return False

    def restored(self, name, v):
        """the function puts values back in order: `out[k] = values[inverse]` or `res[order] = values`"""
        for n in self.f.walk():
            if isinstance(n, ast.Subscript) and self.inverse(n):
                return n
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Name) and self.permutes(t.slice) for t in n.targets):
                return n
        return None

    def report(self, e, at, rep):
        if self.restored(None, None) is not None:
            return
        f = self.f
        rep.add("rows-reordered", f"{f.id}", f"{f.module.rel}:{getattr(e, 'lineno', at.lineno)} {f.qual}",
                f"`{unparse(e, 80)}` changes the order or the number of the rows: the values no longer belong to the solutions they are set on")


# ------------------------------------------------------------------ exceptions
def swallowed(repo, rep, chain):
    fs, todo = [], [m for m, c in chain]
    ev = repo.cls("pymoo.core.evaluator:Evaluator", required=False)
    pr = repo.cls("pymoo.core.problem:Problem", required=False)
    for c, names in ((ev, ("eval", "_eval")), (pr, ("evaluate", "do", "_evaluate_elementwise", "_evaluate_vectorized"))):
        for k in (c.family() if c is not None else ()):
            for nm in names:
                if nm in k.methods:
                    todo.append(k.methods[nm])
    for f in repo.funcs.values():
        if f.cls is not None and f.name == "__call__" and any(isinstance(k, Class) and "Elementwise" in k.name for k in f.cls.mro):
            todo.append(f)
    while todo:
        f = todo.pop()
        if f in fs:
            continue
        fs.append(f)
        for n in f.walk():
            if isinstance(n, ast.Call):
                t = helper(Ctx(repo, f, cls=f.cls), n)
                if t is not None and t.cls is f.cls and t.cls is not None and t.name not in ("__init__",) or t is not None and t.cls is None and t.module is f.module:
                    todo.append(t)
    for f in sorted(set(fs), key=lambda f: f.id):
        rep.count("functions_on_the_way")
        for n in f.walk():
            if isinstance(n, ast.Try):
                if not any(evaluates(repo, f, c) for b in n.body for c in ast.walk(b) if isinstance(c, ast.Call)):
                    continue
                rep.count("handlers_examined", len(n.handlers))
                for h in n.handlers:
                    if not reraises(h.body):
                        rep.add("failure-swallowed", f.id, f"{f.module.rel}:{h.lineno} {f.qual}", f"`except {unparse(h.type) if h.type is not None else ''}` does not raise a failed evaluation again")
                for st in n.finalbody:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Return):
                            rep.add("failure-swallowed", f.id, f"{f.module.rel}:{x.lineno} {f.qual}", "return in finally discards the exception of a failed evaluation")
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    r = it.context_expr
                    if isinstance(r, ast.Call) and last(r.func) == "suppress":
                        rep.add("failure-swallowed", f.id, f"{f.module.rel}:{n.lineno} {f.qual}", f"`{unparse(r)}` discards the exception of a failed evaluation")


EVAL_NAMES = {"evaluate", "_evaluate", "do", "_do", "eval", "_eval", "result", "get", "submit", "map", "starmap", "remote", "func", "elementwise_runner", "elementwise_func", "gather", "compute",
              "imap", "_evaluate_elementwise", "_evaluate_vectorized", "__call__", "parallel"}


def evaluates(repo, f, c):
    nm = last(c.func)
    if nm in EVAL_NAMES:
        return True
    if isinstance(c.func, ast.Name) and c.func.id in f.all_params:
        return True
    if isinstance(c.func, ast.Call):
        return True
    t = helper(Ctx(repo, f, cls=f.cls), c)
    if t is not None and t.module is f.module and t is not f:
        return any(isinstance(x, ast.Call) and last(x.func) in EVAL_NAMES for x in t.walk())
    if isinstance(c.func, ast.Name):
        return any(isinstance(v, ast.Call) and last(v.func) in ("elementwise_func",) for v in repo.local_assigns(f).get(c.func.id, []) if isinstance(v, ast.expr))
    return False


def reraises(body):
    """every path through the handler ends in raise"""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and st.orelse and reraises(st.body) and reraises(st.orelse):
            return True
        if isinstance(st, ast.With) and reraises(st.body):
            return True
        if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


# ------------------------------------------------------------------ workers
def workers(repo, eff, rep):
    cs = set()
    for f in repo.funcs.values():
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)):
            if p.arg == "elementwise_func" and isinstance(d, (ast.Name, ast.Attribute)):
                r = repo.resolve(d, f.module, None)
                if isinstance(r, Class):
                    cs |= set(r.family())
    for c in sorted(cs, key=lambda c: c.id):
        m = c.lookup("__call__")
        if m is None:
            continue
        rep.count("worker_functions")
        for (f, spec), L in eff.direct.items():
            if f is not m:
                continue
            for roots, what, node, val, via in L:
                if any(r == ("p", m.selfname) and not (q and q[0] in ("problem", "__object__")) for r, q in roots):
                    rep.add("worker-state", c.id, f"{m.module.rel}:{getattr(node, 'lineno', m.lineno)} {m.qual}",
                            f"`{unparse(node, 70)}` changes the function object that all workers call at the same time")
        for n in m.walk():
            if isinstance(n, ast.Return) and n.value is not None:
                for v in values_of(repo, m, n.value):
                    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == m.selfname:
                        rep.add("worker-state", c.id, f"{m.module.rel}:{n.lineno} {m.qual}", f"returns self.{v.attr}, which is the same object for all workers")


BASE = """
    class Loop:
        def __call__(self, f, X):
            return [f(x) for x in X]
    class ElementwiseEvaluationFunction:
        def __init__(self, problem):
            self.problem = problem
        def __call__(self, x):
            out = dict()
            self.problem._evaluate(x, out)
            return out
    class Problem:
        def __init__(self, elementwise_func=ElementwiseEvaluationFunction, elementwise_runner=Loop()):
            self.elementwise_func = elementwise_func
            self.elementwise_runner = elementwise_runner
        def _evaluate_elementwise(self, X, out):
            f = self.elementwise_func(self)
            elems = self.elementwise_runner(f, X)
            for elem in elems:
                for k, v in elem.items():
                    if out.get(k, None) is None:
                        out[k] = []
                    out[k].append(v)
"""
POP = """
    class Population:
        def set(self, **kwargs):
            for key, values in kwargs.items():
                for i in range(len(self)):
                    val = values[i] if hasattr(values, "__len__") else values
                    self[%s].set(key, val)
"""
ROWS = """
    import numpy as np
    class Problem:
        def do(self, X, names):
            out = {name: None for name in names}
            %s
            self._evaluate(X, out)
            out = {k: v for k, v in out.items() if v is not None}
            bad = X[np.argsort(X[:, 0])]
            print(bad)
            return self._format_dict(out, len(X), names)
        def _format_dict(self, out, N, names):
            ret = {}
            for name, v in out.items():
                %s
                ret[name] = v
            return ret
"""
SELFTESTS = [
    ("rows", {"pymoo/core/problem.py": ROWS % ("X = np.asarray(X)", "v = v.reshape(N, -1)")}, []),
    ("rows in another order", {"pymoo/core/problem.py": ROWS % ("X = X[np.argsort(X[:, 0])]", "v = v.reshape((N, -1), order='F')")},
     [("rows-reordered", "pymoo.core.problem:Problem.do"), ("rows-reordered", "pymoo.core.problem:Problem._format_dict")]),
    ("clean", {"pymoo/core/problem.py": BASE, "pymoo/core/population.py": POP % "i", "pymoo/parallelization/a.py": """
    from concurrent.futures import as_completed
    class A:
        def __call__(self, f, X):
            jobs = {self.pool.submit(f, x): i for i, x in enumerate(X)}
            res = [None] * len(X)
            for job in as_completed(jobs):
                res[jobs[job]] = job.result()
            return res
    class B:
        def __call__(self, f, X):
            res = []
            for i in range(0, len(X), self.n):
                res.extend(self.pool.map(f, X[i:i + self.n]))
            return res
    class C:
        def __call__(self, f, X):
            return self.collect([self.pool.submit(f, x) for x in X])
        def collect(self, jobs):
            out = []
            for job in jobs:
                out.append(job.result())
            return out
    class D:
        def __call__(self, f, X):
            with self.joblib.Parallel(n_jobs=2) as parallel:
                return parallel(self.joblib.delayed(f)(x) for x in X)
    class E:
        def __call__(self, f, X):
            pairs = [(i, r) for i, r in self.pool.imap_unordered(f, enumerate(X))]
            pairs.sort()
            return [r for _, r in pairs]
    """}, []),
    ("dirty", {"pymoo/core/problem.py": BASE.replace("out[k].append(v)", "if v is not None:\n                        out[k].append(v)").replace("out = dict()", "out = self.out"),
               "pymoo/core/population.py": POP % "-i", "pymoo/parallelization/a.py": """
    from concurrent.futures import as_completed
    class A:
        def __call__(self, f, X):
            jobs = [self.pool.submit(f, x) for x in X]
            return [job.result() for job in as_completed(jobs)]
    class B:
        def __call__(self, f, X):
            jobs = [self.pool.submit(f, x) for x in X]
            res = []
            for job in jobs:
                try:
                    res.append(job.result())
                except Exception:
                    continue
            return res
    class C:
        def __call__(self, f, X):
            return self.pool.map(f, X[::-1])
    class D:
        def __call__(self, f, X):
            futures, res = [self.r.remote(x) for x in X], []
            while futures:
                done, futures = self.ray.wait(futures)
                res.extend(self.ray.get(done))
            return res
    """}, [("order-lost", "pymoo.parallelization.a:A"), ("order-lost", "pymoo.parallelization.a:B"), ("order-lost", "pymoo.parallelization.a:C"), ("order-lost", "pymoo.parallelization.a:D"),
           ("failure-swallowed", "pymoo.parallelization.a:B.__call__"), ("result-dropped", "pymoo.core.problem:Problem._evaluate_elementwise"),
           ("worker-state", "pymoo.core.problem:ElementwiseEvaluationFunction"), ("written-elsewhere", "pymoo.core.population:Population.set")]),
]
