"""P04 - objective and constraint values are written only by evaluation."""
import ast
from sa.model import *
from sa.util import *
from sa.effects import Effects, chain
from sa.paths import Walker
from sa.symb import Ctx, enter, helper

EXPLANATION = (
    "Write-effect analysis on the alias model of P07. Every statement of the package that writes a value field (objectives, constraints, derivatives, "
    "constraint violation, evaluated marks) of a solution or population - attribute assignment, set(\"F\", ...), set(F=...), setattr, in-place item "
    "update of an aliased array - is located; only the Evaluator and the containers Individual/Population may contain one. Writes of variables are "
    "allowed in variation and repair operators and on newly created solutions, not on members of existing populations and not on copies of solutions "
    "that keep their values; every call of a mutation or repair operator (they work in place) must be applied to solutions that are new at that point "
    "(interprocedural provenance; crossover and sampling are checked to return new solutions). Cached properties computed from value fields must be "
    "discarded by the setters of those fields, and multiple values fetched together are bound in the order they were asked for."
)
ASSUMPTIONS = ["population and solution objects are recognised by the alias analysis (types, constructors, established names such as pop/off/infills/ind)",
               "user-supplied operators and problems are outside the package and not judged"]
VALUES = {"F", "G", "H", "dF", "dG", "dH", "ddF", "ddG", "ddH", "CV", "evaluated", "f", "cv", "feas", "FEAS"}
OWNERS = {"Individual", "Population", "Evaluator"}
OPS = {"Mutation", "Repair", "Operator", "Crossover", "Sampling"}


def named(c, names):
    return c is not None and any(isinstance(k, Class) and k.name in names for k in c.mro)


def run(repo, rep):
    rep.rule("value-written", "an evaluated value of a solution is written outside the evaluation")
    rep.rule("variables-written", "the variables of an existing solution are changed outside the variation operators")
    rep.rule("copy-changed", "the variables of a copy are changed while it keeps the values evaluated for the original")
    rep.rule("operator-on-members", "an in-place operator is applied to solutions that are not new")
    rep.rule("operator-returns-members", "a crossover or sampling operator returns solutions it was given")
    rep.rule("stale-cache", "a cached value survives a change of the values it was computed from")
    rep.rule("values-swapped", "values fetched together are bound to each other's names")
    eff = Effects(repo)
    direct_writes(repo, eff, rep)
    operator_calls(repo, eff, rep)
    creators(repo, eff, rep)
    caches(repo, rep)
    swapped(repo, rep)
    inplace_option(repo, rep)
    copies(repo, rep)
    kept_arrays(repo, eff, rep)
    evaluated_before(repo, eff, rep)
    if not getattr(repo, "mini", False):
        for k, m in [("writes_examined", 60), ("value_writes", 20), ("inplace_operator_calls", 8), ("creating_operators", 15), ("cached_properties", 1), ("joint_fetches", 15)]:
            rep.floor(k, m)


def owner(repo, f):
    c = repo.enclosing_class(f)
    return c.id if c is not None else f.module.name


def keys_of(f, node, what):
    """names a set/setattr call may write; * where it is not known"""
    nm = what[5:]
    if nm != "*":
        return {nm}
    k = None
    if isinstance(node, ast.Call):
        k = node.args[1] if isinstance(node.func, ast.Name) and node.func.id == "setattr" and len(node.args) > 1 else node.args[0] if node.args else None
    out = set()
    if isinstance(k, ast.Name):
        for n in f.walk():
            if isinstance(n, (ast.For, ast.comprehension)) and k.id in target_names(n.target):
                for c in ast.walk(n.iter):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        out.add(c.value)
    return out or {"*"}


def solution_like(repo, f, node, val, roots):
    """the written object may be a solution (or a population)"""
    if val is not None and val.kind == "self":
        return named(repo.enclosing_class(f), {"Individual", "Population"})
    t = node
    if isinstance(t, ast.Call):
        return True
    while isinstance(t, ast.Subscript):
        t = t.value
    if not isinstance(t, ast.Attribute):
        return True
    ts = repo.typeset(t.value, f)
    if ts:
        return any(named(c, {"Individual", "Population"}) for c in ts)
    return val is not None and val.kind in ("pop", "ind")


def direct_writes(repo, eff, rep):
    seen = set()
    for (f, spec), L in sorted(eff.direct.items(), key=lambda x: (x[0][0].id, x[0][1])):
        if in_main_guard(f.module, f.node):
            continue
        cls = repo.enclosing_class(f)
        for roots, what, node, val, via in L:
            if (f, id(node), what) in seen:
                continue
            seen.add((f, id(node), what))
            rep.count("writes_examined")
            if what.startswith("attr:"):
                keys = {k[1:] if k.startswith("_") else k for k in keys_of(f, node, what)}
                if not keys & (VALUES | {"X", "x"}) or not solution_like(repo, f, node, val, roots):
                    continue
            elif what == "item" and all(r[0] == "p" and not q for r, q in roots) and roots and f.cls is None:
                array_argument(repo, eff, rep, f, roots, node)
                continue
            elif what == "item":
                keys = {p[-1].lstrip("_") for r, p in roots if p} & (VALUES | {"X"})
                if not keys or not item_of_solution(repo, f, roots, node):
                    continue
            else:
                continue
            where = f"{f.module.rel}:{node.lineno} {f.qual}"
            if named(cls, OWNERS):
                rep.count("value_writes")
                if named(cls, {"Evaluator"}) and keys - {"evaluated"} and recomputed(repo, f, node, what, keys):
                    rep.add("value-written" if keys & VALUES else "variables-written", f"{owner(repo, f)} {','.join(sorted(keys))}", where,
                            f"`{unparse(node, 80)}` replaces {','.join(sorted(keys))} of evaluated solutions by something the problem did not return")
                continue
            if keys & VALUES:
                rep.count("value_writes")
                if what.startswith("attr:") and keys & {"f", "x", "cv", "feas", "FEAS"} and not isinstance(node, ast.Call):
                    continue          # read-only properties: assigning raises
                rep.add("value-written", f"{owner(repo, f)} {','.join(sorted(keys & VALUES))}", where,
                        f"`{unparse(node, 80)}` writes {','.join(sorted(keys & VALUES))} of solutions outside the evaluation")
            elif "X" in keys:
                rep.count("variable_writes")
                if named(cls, OPS):
                    continue
                if roots:
                    if converts_only(f, node):
                        continue
                    for g, bad, call in judge(repo, eff, f, roots, set()):
                        rep.add("variables-written", owner(repo, g), where,
                                f"`{unparse(node, 80)}` changes the variables of existing solutions ({', '.join(bad[:3])}{through(f, g, call)}), which keep the values of the old ones")
                else:
                    c = copied_from(f, node, val is not None and val.kind in ("ind", "pop"))
                    if c is not None:
                        rep.add("copy-changed", owner(repo, f), where,
                                f"`{unparse(node, 80)}` changes the variables of a copy (`{unparse(c, 60)}`) that is still marked as evaluated")


def array_argument(repo, eff, rep, f, roots, node, depth=0):
    """a function changes an array it is given: the array may be the variables or values of a solution at a call"""
    for r, q in roots:
        for (g, spec), L in sorted(eff.calls.items(), key=lambda x: (x[0][0].id, x[0][1])):
            for e, t, b in L:
                if t is not f or g is f or in_main_guard(g.module, g.node) or named(repo.enclosing_class(g), OWNERS | OPS):
                    continue
                v = b.get(r[1])
                if v is None or not v.own:
                    continue
                rep.count("array_arguments_examined")
                own = {(x, p) for x, p in v.own if p and p[-1].lstrip("_") in VALUES | {"X"}}
                if own and item_of_solution(repo, g, own, e):
                    names = sorted({p[-1].lstrip("_") for _, p in own})
                    rule = "value-written" if set(names) & VALUES else "variables-written"
                    rep.add(rule, f"{owner(repo, g)} {','.join(names)} {f.name}", f"{g.module.rel}:{e.lineno} {g.qual}",
                            f"`{unparse(e, 80)}` hands the {names[0]} of a solution to {f.qual}, which changes it in place (`{unparse(node, 50)}`)")
                elif depth < 2 and g.cls is None and all(x[0] == "p" and not p for x, p in v.own):
                    array_argument(repo, eff, rep, g, v.own, e, depth + 1)


def recomputed(repo, f, node, what, keys):
    """inside of the evaluator: a write of values computed from the solutions' own fields"""
    if what == "item":
        return "X" in keys or isinstance(node, (ast.Call, ast.AugAssign))
    st = statement_of(f.module, node)[0]
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and len(node.args) > 1:
        vals = [b for a, b in zip(node.args[::2], node.args[1::2]) if isinstance(a, ast.Constant) and a.value in VALUES | {"X"}] + \
               [k.value for k in node.keywords if k.arg in VALUES | {"X"}]
    elif isinstance(st, (ast.Assign, ast.AugAssign)):
        vals = [st.value]
        if isinstance(st, ast.AugAssign):
            return True
    else:
        return False
    for v in vals:
        for n in ast.walk(v):
            if isinstance(n, ast.Attribute) and n.attr in VALUES | {"X"} - {"evaluated"} and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.BinOp):
                return True
    return False


def inplace_option(repo, rep):
    """an operator asked not to work in place works on copies of the solutions"""
    for f in sorted(repo.funcs.values(), key=lambda x: x.id):
        if f.cls is None or not named(f.cls, OPS) or "inplace" not in f.params + f.kwonly:
            continue
        for n in f.walk():
            if not isinstance(n, ast.If):
                continue
            t, body = n.test, n.orelse
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, body = t.operand, n.body
            if not (isinstance(t, ast.Name) and t.id == "inplace"):
                continue
            rep.count("inplace_options")
            for a in [x for b in body for x in ast.walk(b) if isinstance(x, ast.Assign)]:
                v = a.value
                shared = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "copy" and not v.args and not v.keywords and isinstance(v.func.value, ast.Name) \
                    or isinstance(v, ast.Call) and (dotted(v.func) or "") in ("copy.copy", "list", "np.array", "np.copy", "np.asarray", "Population.create", "Population.merge") \
                    or isinstance(v, (ast.Subscript, ast.Name))
                inner = any(isinstance(x, ast.Call) and x is not v and isinstance(x.func, (ast.Attribute, ast.Name)) and
                            (x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id) in ("copy", "deepcopy", "new", "Individual") for x in ast.walk(v))
                if shared and not inner:
                    rep.add("operator-on-members", f"{owner(repo, f)} inplace", f"{f.module.rel}:{a.lineno} {f.qual}",
                            f"`{unparse(a, 80)}` holds the same solutions: they are changed although the operator was asked not to work in place")


def copies(repo, rep):
    """Individual.copy: a deep copy shares no array with the original"""
    for c in sorted(repo.classes.values(), key=lambda x: x.id):
        f = c.methods.get("copy")
        if f is None or not named(c, {"Individual"}) or "deep" not in f.params + f.kwonly:
            continue
        rep.count("deep_copies")
        deep = False
        for n in f.walk():
            if isinstance(n, ast.Call):
                r = repo.resolve(n.func, f.module, f)
                if isinstance(r, Ext) and r.path == "copy.deepcopy" or isinstance(r, Func) or isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id in (f.selfname, "super") and n.func.attr not in ("new", "get", "set", "reset", "__class__"):
                    dead = False
                    for a in ancestors(f.module, n):
                        if isinstance(a, ast.If) and any(n is x for b in a.body for x in ast.walk(b)):
                            t = a.test
                            if isinstance(t, ast.Constant) and not t.value or isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and "deep" in unparse(t.operand):
                                dead = True
                    deep = deep or not dead
        if not deep:
            rep.add("copy-changed", f"{f.id} deep", f.loc, "a deep copy shares the arrays of the original: changing one changes the values of the other")


def through(f, g, call):
    return "" if f is g else f" through `{unparse(call, 60)}` in {g.qual}"


def template(f):
    """a method other code calls by contract: it overrides one of a base class"""
    return f.cls is None or any(isinstance(k, Class) and k is not f.cls and f.name in k.methods for k in f.cls.mro)


def judge(repo, eff, f, roots, seen):
    """solutions reached from roots are changed in f: yields (function, names, call) where they are not new.
    A parameter of a helper is judged at the helper's call sites."""
    if f in seen:
        return
    seen = seen | {f}
    own = []
    for r, p in sorted(roots, key=str):
        if r[0] not in ("p", "g"):
            continue
        sites = []
        if r[0] == "p" and not p and r[1] in f.all_params and not (f.cls is not None and template(f)):
            for (g, spec), L in sorted(eff.calls.items(), key=lambda x: (x[0][0].id, x[0][1])):
                for e, t, b in L:
                    if t is f and g is not f:
                        sites.append((g, e, b.get(r[1])))
        if not sites:
            own.append(".".join((r[1],) + p))
            continue
        for g, e, v in sites:
            if v is None or named(repo.enclosing_class(g), OWNERS | OPS) or (isinstance(e, ast.Call) and not_evaluated(g, e)):
                continue
            rs = v.elem | v.own
            if rs:
                for x, bad, call in judge(repo, eff, g, rs, seen):
                    yield x, bad, (call if call is not None else e)
    if own:
        yield f, own, None


def item_of_solution(repo, f, roots, node):
    """the updated array is reached through a solution: its owner is a solution/population, not e.g. self.F of an indicator"""
    for r, p in roots:
        if not p or p[-1].lstrip("_") not in VALUES | {"X"}:
            continue
        if len(p) == 1 and r[0] == "p" and r[1] == (f.selfname or repo.self_name(f)):
            if named(repo.enclosing_class(f), {"Individual", "Population"}):
                return True
            continue
        import sa.effects as E
        base = p[-2] if len(p) > 1 else r[1].split(".")[-1]
        if E.POP.match(base) or E.IND.match(base):
            return True
        if len(p) == 1 and r[0] == "p" and r[1] in f.all_params and handed_solution(repo, f, r[1]):
            return True
    return False


def handed_solution(repo, f, p):
    """the parameter is only used as a solution is: p.X, p.F, p.get(...)"""
    used = {n.attr for n in f.walk() if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p}
    return bool(used) and used <= VALUES | {"X", "x", "get", "set", "has", "data", "copy", "evaluated"}


def kept_arrays(repo, eff, rep):
    """self.a = sol.F (by reference) in one method and an in-place update of self.a in another"""
    held = {}
    for (f, spec), L in eff.stores.items():
        c, sn = repo.enclosing_class(f), repo.self_name(f)
        if c is None or named(c, OWNERS) or in_main_guard(f.module, f.node):
            continue
        for b, attr, v, node in L:
            if (("p", sn), ()) not in b.own:
                continue
            rep.count("field_stores")
            src = {(r, p) for r, p in v.own if p and p[-1].lstrip("_") in VALUES | {"X"} and not (len(p) == 1 and r == ("p", sn))}
            if src and item_of_solution(repo, f, src, node):
                held.setdefault((c, attr), (f, node, sorted(src, key=str)[0]))
    rep.count("fields_sharing_values", len(held))
    if not held:
        return
    for (f, spec), L in eff.direct.items():
        c, sn = repo.enclosing_class(f), repo.self_name(f)
        if c is None or sn is None:
            continue
        for roots, what, node, val, via in L:
            if what.startswith("attr:") or what == "rebind":
                continue
            for (k, attr), (g, at, src) in held.items():
                if (("p", sn), (attr,)) in roots and (c is k or k in c.mro or c in k.mro):
                    rep.add("value-written", f"{k.id} {attr}", f"{f.module.rel}:{getattr(node, 'lineno', f.lineno)} {f.qual}",
                            f"`{unparse(node, 70)}` updates self.{attr} in place, which shares the {src[1][-1]} of a solution (`{unparse(at)}` set at {g.module.rel}:{at.lineno})")


def converts_only(f, node):
    """ind.X = np.asarray(ind.X) and the like: the same values"""
    st = statement_of(f.module, node)[0]
    if not isinstance(st, ast.Assign) or len(st.targets) != 1:
        return False
    t, v = ast.dump(st.targets[0]).replace("Store()", "Load()"), st.value
    while isinstance(v, ast.Call):
        nm = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ""
        if nm in ("asarray", "array", "list", "tuple", "atleast_1d", "ascontiguousarray") and v.args:
            v = v.args[0]
        elif nm in ("astype", "copy", "tolist") and isinstance(v.func, ast.Attribute):
            v = v.func.value
        else:
            return False
    return ast.dump(v) == t


def base_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def copied_from(f, node, known=False):
    """the receiver was bound to a copy of another solution and its marks were not reset -> the copying expression"""
    t = node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else node
    nm = base_name(t)
    if nm is None:
        return None
    found = None
    names, todo = set(), [nm]
    while todo:
        x = todo.pop()
        if x in names:
            continue
        names.add(x)
        for n in f.walk():
            v = None
            if isinstance(n, ast.Assign) and any(x in target_names(tt) for tt in n.targets):
                v = n.value
            elif isinstance(n, (ast.For, ast.comprehension)) and x in target_names(n.target):
                v = n.iter
            if v is None:
                continue
            for c in ast.walk(v):
                if isinstance(c, ast.Call):
                    d = dotted(c.func) or ""
                    if d in ("copy.deepcopy", "deepcopy", "copy.copy") or (isinstance(c.func, ast.Attribute) and c.func.attr == "copy" and not any(
                            isinstance(y, ast.Attribute) and y.attr in ("X", "x") for y in ast.walk(c.func.value)) and not any(
                            isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "get" for y in ast.walk(c.func.value))):
                        if solution_expr(c) or known and v is c:
                            found = c
                if isinstance(c, ast.Name) and v is c:
                    todo.append(c.id)
    if found is None:
        return None
    for n in f.walk():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "reset":
            return None
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Constant) and a.value == "evaluated" for a in n.args):
            return None
        if isinstance(n, ast.Attribute) and n.attr == "evaluated":
            return None
    return found


def solution_expr(c):
    import sa.effects as E
    for y in ast.walk(c):
        nm = y.attr if isinstance(y, ast.Attribute) else y.id if isinstance(y, ast.Name) else None
        if nm and (E.POP.match(nm) or E.IND.match(nm)):
            return True
    return False


def operator_kind(repo, fn, f):
    """mutation / repair operators work in place"""
    o = fn.value if isinstance(fn, ast.Attribute) and fn.attr in ("do", "__call__", "_do") else fn
    if isinstance(o, ast.Call):
        o = o.func
        r = repo.resolve(o, f.module, f)
        return isinstance(r, Class) and named(r, {"Mutation", "Repair"})
    if not isinstance(o, (ast.Name, ast.Attribute)):
        return False
    ops = [t for t in repo.typeset(o, f) if named(t, {"Operator", "Repair"})]
    if ops:
        return any(named(t, {"Mutation", "Repair"}) for t in ops)
    nm = (o.attr if isinstance(o, ast.Attribute) else o.id).lower()
    return nm.strip("_") in ("mut", "mutation", "repair", "mutate")


def operator_calls(repo, eff, rep):
    seen = set()
    for (f, spec), L in sorted(eff.calls.items(), key=lambda x: (x[0][0].id, x[0][1])):
        cls = repo.enclosing_class(f)
        if in_main_guard(f.module, f.node) or named(cls, {"Operator", "Repair", "Mutation"}):
            continue
        for e, t, b in L:
            if not (t.cls is not None and named(t.cls, {"Operator", "Repair"}) and t.name in ("do", "__call__", "_do") and isinstance(e, ast.Call)):
                continue
            if not operator_kind(repo, e.func, f):
                continue
            if id(e) not in seen:
                rep.count("inplace_operator_calls")
                seen.add(id(e))
            for p, v in sorted(b.items()):
                if p in (t.selfname, "problem", "random_state", t.kwarg, t.vararg):
                    continue
                roots = v.elem | (v.own if v.kind == "ind" else frozenset())
                bad = sorted(".".join((r[1],) + q) for r, q in roots if r[0] in ("p", "g"))
                if not bad or (f, id(e), p) in seen or not_evaluated(f, e):
                    continue
                if v.kind is None and not any(x.split(".")[-1] in ("pop", "off", "infills", "opt") for x in bad):
                    continue
                seen.add((f, id(e), p))
                for g, bad, call in judge(repo, eff, f, roots, set()):
                    rep.add("operator-on-members", owner(repo, g), f"{f.module.rel}:{e.lineno} {f.qual}",
                            f"`{unparse(e, 90)}` changes solutions in place that may belong to {', '.join(bad[:3])}{through(f, g, call)}: they keep the values of their old variables")


def not_evaluated(f, e):
    """the argument is restricted to solutions that were not evaluated yet (its index is derived from their evaluated marks)"""
    for a in list(e.args) + [k.value for k in e.keywords]:
        for s in ast.walk(a):
            if isinstance(s, ast.Name):
                for n in f.walk():
                    if isinstance(n, (ast.Call, ast.Assign)):      # filled under a test of the marks
                        o = n.func.value if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else n.targets[0] if isinstance(n, ast.Assign) else None
                        if isinstance(o, (ast.Name, ast.Subscript)) and base_name(o) == s.id and any(
                                isinstance(i, ast.If) and any(isinstance(y, ast.Attribute) and y.attr == "evaluated" for y in ast.walk(i.test)) for i in ancestors(f.module, n)):
                            return True
                    if isinstance(n, ast.Assign) and any(s.id in target_names(t) for t in n.targets):
                        if any(isinstance(y, ast.Attribute) and y.attr == "evaluated" or isinstance(y, ast.Constant) and y.value == "evaluated" for y in ast.walk(n.value)):
                            return True
                        for c in ast.walk(n.value):         # or by a helper that looks at them
                            if isinstance(c, ast.Call):
                                for t in f.repo.resolve_call(c, f, fallback=False):
                                    if isinstance(t, Func) and any(isinstance(y, ast.Attribute) and y.attr == "evaluated" for y in t.walk()):
                                        return True
    return False


class AfterEval(Walker):
    """which local populations were handed to the evaluator when an in-place operator is applied to them"""
    loops_once = True

    def __init__(self, repo, ops):
        super().__init__(repo)
        self.ops, self.hits = ops, []

    def key(self, e, ctx):
        while isinstance(e, (ast.Subscript, ast.Starred)):
            e = e.value
        if isinstance(e, ast.Name):
            if ctx.up is not None and e.id in ctx.args and e.id not in ctx.repo.local_assigns(ctx.f):
                return self.key(ctx.args[e.id], ctx.up)
            return (ctx.depth(), ctx.f.id, e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == ctx.f.selfname:
            return ("self", e.attr)
        return None

    def inline(self, call, ctx):
        if id(call) in self.ops or is_eval(call) or ctx.depth() > 2:
            return None
        t = helper(ctx, call)
        if t is None or t.name in ("__init__",) or named(t.cls, {"Evaluator", "Operator", "Repair", "Population", "Individual", "Survival"}):
            return None
        if not any(isinstance(n, ast.Call) and (id(n) in self.ops or is_eval(n)) for n in t.walk()):
            return None
        return enter(ctx, call, t)

    def carried(self, e, ctx, s):
        """does the expression hold solutions of a population that was evaluated?"""
        if isinstance(e, ast.Call):
            if is_eval(e):
                return True
            fn = e.func
            if isinstance(fn, ast.Attribute) and fn.attr in ("merge", "concatenate", "vstack", "hstack", "append") or isinstance(fn, ast.Attribute) and fn.attr == "create":
                return any(self.carried(a, ctx, s) for a in e.args)
            return False
        if isinstance(e, ast.IfExp):
            return self.carried(e.body, ctx, s) or self.carried(e.orelse, ctx, s)
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(self.carried(x, ctx, s) for x in e.elts)
        k = self.key(e, ctx) if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred)) else None
        return k is not None and k in s

    def event(self, n, ctx, s):
        if isinstance(n, ast.Call):
            if is_eval(n):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    k = self.key(a, ctx)
                    if k is not None and isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)):
                        s = s | {k}
            elif id(n) in self.ops:
                for a in list(n.args)[1:] + [k.value for k in n.keywords if k.arg in ("pop", "off")]:
                    if self.carried(a, ctx, s) and isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)):
                        self.hits.append((n, ctx.f, a))
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, (ast.Name, ast.Attribute)):
                    k = self.key(t, ctx)
                    if k is not None:
                        s = s | {k} if self.carried(n.value, ctx, s) else s - {k}
                elif isinstance(t, (ast.Tuple, ast.List)):
                    s = s - {self.key(x, ctx) for x in t.elts if isinstance(x, (ast.Name, ast.Attribute))}
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            s = s - {self.key(x, ctx) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        return s


def is_eval(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "eval" and len(n.args) + len(n.keywords) >= 2 and \
        "evaluator" in (dotted(n.func.value) or "evaluator").lower()


def evaluated_before(repo, eff, rep):
    ops = {}
    for (f, spec), L in eff.calls.items():
        for e, t, b in L:
            if isinstance(e, ast.Call) and t.cls is not None and named(t.cls, {"Operator", "Repair"}) and t.name in ("do", "__call__", "_do") and operator_kind(repo, e.func, f) and \
                    not any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                ops[id(e)] = f
    fs = [f for f in repo.funcs.values() if not named(repo.enclosing_class(f), {"Operator", "Repair", "Evaluator"}) and not in_main_guard(f.module, f.node)]
    near = {f for f in fs if any(isinstance(n, ast.Call) and (id(n) in ops or is_eval(n)) for n in f.walk())}
    for f in sorted(fs, key=lambda f: f.id):
        if f not in near and not any(isinstance(n, ast.Call) and any(t in near for t in repo.resolve_call(n, f, fallback=False)) for n in f.walk()):
            continue
        rep.count("operation_order_examined")
        w = AfterEval(repo, ops)
        try:
            w.run(f, Ctx(repo, f, cls=f.cls), {frozenset()})
        except RuntimeError:
            rep.notes.append(f"too many paths in {f.id}")
            continue
        for n, g, a in w.hits:
            if not_evaluated(g, n):
                continue
            rep.add("operator-on-members", f"{owner(repo, g)} evaluated {unparse(a, 30)}", f"{g.module.rel}:{n.lineno} {g.qual}",
                    f"`{unparse(n, 90)}` changes solutions in place after they were evaluated ({f.qual}): they keep the values of their old variables")


def creators(repo, eff, rep):
    """crossover.do and sampling.do: solutions they return are new"""
    for f in sorted(repo.funcs.values(), key=lambda x: x.id):
        if f.cls is None or f.name not in ("do",) or not named(f.cls, {"Crossover", "Sampling"}):
            continue
        s = eff.sum[(f, ())]
        rep.count("creating_operators")
        bad = sorted({".".join((r[1],) + p) for r, p in s.ret_elem | s.ret_own if r[0] == "p" and r[1] not in (f.selfname, "problem", "random_state", f.kwarg)})
        if bad and s.ret_kind in ("pop", "seq", None):
            rep.add("operator-returns-members", f.id, f.loc, f"returns solutions of its argument {', '.join(bad[:3])} instead of new ones")
    for c in repo.classes.values():
        if named(c, {"Crossover", "Sampling"}):
            rep.count("creating_operators")


def caches(repo, rep):
    """a property that keeps its value on the object: the setters of what it was computed from must discard it"""
    for c in sorted(repo.classes.values(), key=lambda x: x.id):
        props = {}
        setters = {}
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef):
                ds = [dotted(d) or "" for d in n.decorator_list]
                if "property" in ds:
                    props[n.name] = n
                for d in ds:
                    if d.endswith(".setter"):
                        setters[d[:-7]] = n
        for nm, g in sorted(props.items()):
            if not g.args.args:
                continue
            sn = g.args.args[0].arg
            stores = [n for n in ast.walk(g) if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
                      if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sn]
            for st in stores:
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if st.value is None:
                    continue
                reads = {n.attr for n in ast.walk(st.value) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn}
                reads |= called_reads(c, g, st.value, sn)
                rep.count("cached_properties")
                for rname in sorted(reads):
                    s = setters.get(rname) or setters.get(rname.lstrip("_"))
                    if s is None or rname.lstrip("_") == nm:
                        continue
                    if not stores_attr(c, s, t.attr, set()):
                        rep.add("stale-cache", f"{c.id} {nm} {rname}", f"{c.module.rel}:{s.lineno} {c.qual}.{s.name}",
                                f"setting {rname.lstrip('_')} leaves the cached {nm} (`{t.attr}`), computed from the old value, in place")


def called_reads(c, g, e, sn):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == sn:
            m = c.lookup(n.func.attr)
            if m is not None and m.selfname:
                out |= {x.attr for x in m.walk() if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == m.selfname}
        if isinstance(n, ast.Name):
            for a in ast.walk(g):
                if isinstance(a, ast.Assign) and any(n.id in target_names(t) for t in a.targets) and a.value is not e:
                    out |= {x.attr for x in ast.walk(a.value) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sn}
    return out


def stores_attr(c, fnode, attr, seen):
    if id(fnode) in seen or not fnode.args.args:
        return False
    seen.add(id(fnode))
    sn = fnode.args.args[0].arg
    for n in ast.walk(fnode):
        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Call):
            if any(isinstance(a, ast.Constant) and a.value == attr for a in n.args):
                return True
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == sn:
                m = c.lookup(n.func.attr)
                if m is not None and stores_attr(c, m.node, attr, seen):
                    return True
    return False


def swapped(repo, rep):
    NAMES = {"X", "F", "G", "H", "CV", "FEAS", "dF", "dG", "dH", "ddF", "rank", "crowding"}
    for f in sorted(repo.funcs.values(), key=lambda x: x.id):
        for n in f.walk():
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple):
                for t in n.targets:
                    if isinstance(t, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        last = lambda x: (x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else "").lstrip("_")
                        to, frm = [last(x) for x in t.elts], [last(x) for x in n.value.elts]
                        if set(to) == set(frm) and "" not in to and all(isinstance(x, ast.Attribute) for x in t.elts) and set(to) <= NAMES:
                            for a, b in zip(to, frm):
                                if a != b:
                                    rep.add("values-swapped", f"{owner(repo, f)} {a}", f"{f.module.rel}:{n.lineno} {f.qual}",
                                            f"`{unparse(n, 90)}` stores the solutions' {b} as {a}")
            if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "get"):
                continue
            keys = [a.value if isinstance(a, ast.Constant) else None for a in n.value.args]
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(keys) and len(keys) > 1:
                    rep.count("joint_fetches")
                    names = [(x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else "").lstrip("_") for x in t.elts]
                    for nm, k in zip(names, keys):
                        if k is not None and nm != k and nm in NAMES and nm in keys and k in NAMES:
                            rep.add("values-swapped", f"{owner(repo, f)} {nm}", f"{f.module.rel}:{n.lineno} {f.qual}",
                                    f"`{unparse(n, 90)}` binds the solutions' {k} to {nm}")


STUB = {
    "pymoo/core/individual.py": """
    class Individual:
        def __init__(self, X=None):
            self._X = X
            self._F = None
            self._G = None
            self._CV = None
            self.evaluated = set()
        @property
        def X(self):
            return self._X
        @X.setter
        def X(self, v):
            self._X = v
        @property
        def G(self):
            return self._G
        @G.setter
        def G(self, v):
            self._G = v
            RESET
        @property
        def CV(self):
            if self._CV is None:
                self._CV = calc(self.G)
            return self._CV
    """,
    "pymoo/core/population.py": """
    class Population:
        @classmethod
        def new(cls, **kwargs):
            return cls()
        @classmethod
        def merge(cls, a, b):
            return cls()
    """,
    "pymoo/core/operator.py": """
    class Operator:
        def do(self, problem, elem, **kwargs):
            return self._do(problem, elem, **kwargs)
        def __call__(self, problem, elem, **kwargs):
            return self.do(problem, elem, **kwargs)
    """,
    "pymoo/core/mutation.py": """
    from pymoo.core.operator import Operator
    class Mutation(Operator):
        def do(self, problem, pop, **kwargs):
            pop.set("X", self._do(problem, pop.get("X")))
            return pop
    """,
    "pymoo/core/crossover.py": """
    from pymoo.core.operator import Operator
    from pymoo.core.population import Population
    class Crossover(Operator):
        def do(self, problem, pop, **kwargs):
            return Population.new(X=pop.get("X"))
    """,
}


def stub(reset):
    return {k: v.replace("RESET", reset) for k, v in STUB.items()}


SELFTESTS = [
    ("clean", {**stub("self._CV = None"), "pymoo/algorithms/a.py": """
    from pymoo.core.mutation import Mutation
    from pymoo.core.crossover import Crossover
    from pymoo.core.population import Population
    class A:
        def __init__(self):
            self.mutation = Mutation()
            self.crossover = Crossover()
        def _infill(self):
            off = self.crossover(self.problem, self.pop)
            off = self.mutation(self.problem, off)
            new = Population.new(X=self.pop.get("X"))
            new.set("X", 1)
            X, F = self.pop.get("X", "F")
            return self.mutation.do(self.problem, new)
        def _advance(self, infills):
            F = infills.get("F")
            F[0] = 1
            infills.set("rank", F)
    """}, []),
    ("dirty", {**stub("pass"), "pymoo/algorithms/a.py": """
    from pymoo.core.mutation import Mutation
    from pymoo.core.population import Population
    import copy
    import numpy as np
    class A:
        def __init__(self):
            self.mutation = Mutation()
        def _infill(self):
            return self.mutation(self.problem, self.pop)
        def _advance(self, infills):
            infills.set("F", 0)
    class B:
        def _advance(self, infills):
            for ind in infills:
                ind.F[:] = 0
            F, X = infills.get("X", "F")
    class C:
        def _infill(self):
            off = copy.deepcopy(self.pop)
            off.set("X", 1)
            self.pop[0].X = 1
            return off
    class D:
        def __init__(self):
            self.mutation = Mutation()
        def _start(self):
            self.ideal = self.pop[0].F
        def _advance(self, infills):
            self.ideal[:] = 0
            pop = Population.new(X=self.pop.get("X"))
            pop = self.evaluator.eval(self.problem, pop)
            return self.vary(pop[1:])
        def vary(self, some):
            self.mutation(self.problem, some)
    def step(x, d):
        y = x
        y[0] = y[0] + d
        return y
    def fresh(x, d):
        y = np.copy(x)
        y[0] = y[0] + d
        return y
    def shift(current, d):
        X = current.X
        X += d
        return X
    class E:
        def _next(self, sol):
            a = fresh(sol.X, 1)
            return step(sol.X, 1)
        def result(self, res, X, G, H):
            res.X, res.G, res.H = X, H, G
    class M(Mutation):
        def do(self, problem, pop, inplace=True):
            if not inplace:
                pop = pop.copy()
            pop.set("X", 1)
            return pop
    class N(Mutation):
        def do(self, problem, pop, inplace=True):
            if not inplace:
                pop = copy.deepcopy(pop)
            pop.set("X", 1)
            return pop
    """}, [("operator-on-members", "pymoo.algorithms.a:M inplace"), ("values-swapped", "pymoo.algorithms.a:E G"), ("values-swapped", "pymoo.algorithms.a:E H"),
           ("variables-written", "pymoo.algorithms.a"), ("variables-written", "pymoo.algorithms.a:E X step"),
           ("stale-cache", "pymoo.core.individual:Individual CV G"), ("operator-on-members", "pymoo.algorithms.a:A"), ("value-written", "pymoo.algorithms.a:A F"),
           ("value-written", "pymoo.algorithms.a:B F"), ("values-swapped", "pymoo.algorithms.a:B F"), ("values-swapped", "pymoo.algorithms.a:B X"),
           ("copy-changed", "pymoo.algorithms.a:C"), ("value-written", "pymoo.algorithms.a:D ideal"), ("operator-on-members", "pymoo.algorithms.a:D evaluated some"), ("variables-written", "pymoo.algorithms.a:C")]),
]
