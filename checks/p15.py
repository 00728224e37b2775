"""P15 - survival and selection only pick among the solutions they were given."""
import ast
from sa.model import *
from sa.util import *
from sa.lens import Lens, Val, Lin, atom, prove, excess, counterexample, at_least, TooMany

EXPLANATION = (
    "A path-sensitive abstract interpreter executes every survival, replacement and parent selection symbolically: each collection carries a symbolic length, whether its elements are distinct, the regions of the "
    "given population it is a subset of and whether all its members were given. Loops are summarised by inductive invariants. On every path the returned solutions must be members of the given population, must not "
    "be picked twice and must not be provably more than asked for; the designs and values of the given solutions and the given collection itself are not written, and tournaments return one of their contestants. "
    "Lengths or picks that depend on numerical data are counted as undecided and not reported."
)
ASSUMPTIONS = ["a non-dominated sorting returns disjoint fronts of the given rows and stops at the front that exceeds the number to be ranked (P04)", "an elite or a survival given by the user keeps the same contract"]

VALUES = {"X", "F", "G", "H", "CV", "feas", "FEAS", "dF", "dG", "dH", "_X", "_F", "_G", "_H"}
INPLACE = {"sort", "resize", "fill", "partition", "put", "itemset", "byteswap"}


def run(repo, rep):
    rep.rule("foreign-member", "a survival or selection can return a solution that was not given")
    rep.rule("picked-twice", "a given solution can be picked more than once by a survival")
    rep.rule("too-many", "a survival can return more solutions than it was asked for")
    rep.rule("wrong-index", "indices that were determined for a part are used on another collection")
    rep.rule("negative-slice", "[:-k] is empty instead of complete if k is zero")
    rep.rule("given-changed", "a survival or selection writes designs, values or the given population itself, or evaluates solutions")
    rep.rule("outside-the-population", "an index that is drawn can be outside of the population")
    rep.rule("wrong-shape", "the matrix of selected parents has its rows and columns exchanged")
    rep.rule("tournament-result", "a tournament can return something else than one of its contestants")
    base, sel, popc = repo.cls("Survival"), repo.cls("Selection"), repo.cls("Population")
    pick = Picks(repo, rep)
    seen = set()
    for c in base.family():
        for nm in ("do", "_do"):
            m = c.methods.get(nm)
            if m is not None and m.id not in seen:
                seen.add(m.id)
                pick.survival(c, m)
    repl = repo.cls("ReplacementSurvival", required=False)
    for f in repo.funcs.values():
        if f.name == "split_by_feasibility" and f.cls is None:
            pick.split(f)
    trunc = repo.cls("Truncation", required=False)
    if trunc is not None:
        for c in trunc.family():
            m = c.methods.get("__call__")
            if m is not None:
                pick.truncation(c, m)
    for c in sel.family():
        for nm in ("do", "_do"):
            m = c.methods.get(nm)
            if m is not None:
                pick.selection(c, m)
    # survivals without the common base class: a method do with a population and a number of survivors
    for c in repo.classes.values():
        if base in c.mro or sel in c.mro:
            continue
        m = c.methods.get("do")
        if m is not None and "n_survive" in m.all_params:
            pick.survival(c, m)
    contests(repo, rep)
    pickers(repo, rep)
    if not getattr(repo, "mini", False):
        for k, n in [("survivals", 18), ("returns", 50), ("decided_members", 25), ("decided_distinct", 20), ("decided_counts", 20), ("selections", 5), ("tournaments", 5), ("contest_results", 12)]:
            rep.floor(k, n)


def cparams(m):
    return [p for p in m.all_params if p != m.selfname]


class Picks:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.popc = repo.cls("Population")
        self.ind = repo.cls("Individual", required=False)
        self.makers = [c for c in (repo.cls(n, required=False) for n in ("Sampling", "Crossover", "Mutation", "InfillCriterion", "Initialization")) if c is not None]
        self.evaluator = repo.cls("Evaluator", required=False)
        self.nds = repo.cls("NonDominatedSorting", required=False)
        self.survivals = repo.cls("Survival")
        self.m = None

    # ------------------------------------------------------------- what is analysed
    def start(self, c, m, given, asked=None, le=False, mode="survival"):
        self.m, self.asked, self.mode, self.shape = m, None, mode, None
        self.given = set()
        env, facts = {}, []
        for p in m.all_params:
            env[p] = Val(roots=frozenset([p]))
        first = None
        for g in given:
            v = Val("pop", atom("len:pop"), True, prov=True, roots=frozenset([g]))
            self.given.add(v.ident)
            env[g] = v
            first = first or v
        if asked is not None and asked in m.all_params:
            self.asked = atom("n:survive")
            env[asked] = Val("num", num=self.asked, roots=frozenset([asked]))
            facts.append(self.asked - 1)
            if le and first is not None:
                facts.append(first.len - self.asked)
        if mode == "selection" and {"n_select", "n_parents"} <= set(m.all_params):
            self.shape = (atom("n:select"), atom("n:parents"))
            for p, a in zip(("n_select", "n_parents"), self.shape):
                env[p] = Val("num", num=a, roots=frozenset([p]))
        self.size = first.len if first is not None else None
        self.lens = Lens(self.repo, c, self.report, self)
        self.lens.over = self.asked
        if first is not None:
            self.lens.measure(first.len)
        for v in env.values():
            if v.kind == "pop":
                self.lens.exact |= set(v.len.c)
            elif v.num is not None:
                self.lens.exact |= set(v.num.c)
        try:
            return self.lens.function(m, env, facts)
        except TooMany:
            self.rep.count("too_many_paths")
            return []

    def survival(self, c, m):
        given = [p for p in cparams(m) if p in ("pop", "off", "sols")]
        if not given:
            return
        self.rep.count("survivals")
        self.rep.sample("survivals", m.id)
        sub = "n_survive" in m.all_params and "off" not in given
        indices = "off" in given and m.name == "_do" and not sub
        outs = self.start(c, m, given, "n_survive" if sub else None, le=m.name == "_do")
        for s, v, n in outs:
            self.rep.count("returns")
            if v.kind in ("none",) or indices:
                continue
            self.member(m, v, n)
            self.distinct(m, v, n, s)
            if self.asked is not None:
                self.number(m, v, n, s, m.name == "do")

    def truncation(self, c, m):
        ps = cparams(m)
        if len(ps) < 2:
            return
        self.rep.count("survivals")
        for s, v, n in self.start(c, m, [ps[0]], ps[1], le=True):
            self.rep.count("returns")
            if v.kind == "none":
                continue
            self.member(m, v, n)
            self.distinct(m, v, n, s)
            self.number(m, v, n, s, False)

    def selection(self, c, m):
        given = [p for p in cparams(m) if p in ("pop", "Hm")]
        if not given:
            return
        self.rep.count("selections")
        for s, v, n in self.start(c, m, given, mode="selection"):
            self.rep.count("returns")
            sh = (v.extra or {}).get("shape")
            if sh is not None and sh == self.shape[::-1] and sh != self.shape:
                self.add("wrong-shape", m, n, "the rows of what is returned are the parents and the columns the selections")
            if v.kind in ("pop", "one") or v.prov is False:
                self.member(m, v, n)

    def split(self, f):
        self.m = f
        for s, v, n in self.start(None, f, ["pop"]):
            if v.items and len(v.items) >= 2:
                a, b = v.items[0], v.items[1]
                ka, kb = [{(x[1], x[2]) for x in y.src if x[0] == "mask"} for y in (a, b)]
                self.rep.count("splits")
                if ka & kb:
                    self.rep.add("picked-twice", f.id, f"{f.module.rel}:{n.lineno}", "both parts of the split contain the same solutions")

    # ------------------------------------------------------------- verdicts
    def at(self, f, node):
        return f"{f.module.rel}:{getattr(node, 'lineno', f.lineno)}"

    def add(self, rule, f, node, text):
        self.rep.add(rule, f.id, self.at(f, node), text)

    def report(self, rule, f, node, text):
        self.add(rule, f, node, text)

    def member(self, m, v, n):
        if v.prov is True:
            self.rep.count("decided_members")
        elif v.prov is False:
            self.add("foreign-member", m, n, "the returned collection contains solutions that were created or copied here")
        else:
            self.rep.count("undecided_members")

    def distinct(self, m, v, n, s):
        if v.kind not in ("pop", "idx", "list"):
            self.rep.count("undecided_distinct")
        elif v.dist is True:
            self.rep.count("decided_distinct")
        elif v.dist is False:
            self.add("picked-twice", m, n, "the same solution can be returned more than once")
        else:
            self.rep.count("undecided_distinct")

    def number(self, m, v, n, s, may_be_none):
        if v.kind not in ("pop", "idx", "list"):
            self.rep.count("undecided_counts")
            return
        x = excess(v.len, self.asked, s.facts)
        if x == 0:
            self.rep.count("decided_counts")
        elif x is not None:
            self.add("too-many", m, n, f"up to {x} more solutions than asked for are returned")
        elif prove(v.len - self.asked - 1, s.facts, 3):
            self.add("too-many", m, n, "more solutions than asked for are returned")
        elif any(a in getattr(self.lens, "exceed", ()) for a in v.len.c):
            self.add("too-many", m, n, "solutions are collected beyond the number asked for")
        elif counterexample(v.len, self.asked, s, self.lens.exact) or at_least(v.len, self.asked, s, self.lens.exact):
            self.add("too-many", m, n, "more solutions than asked for can be returned")
        elif self.filled(v.len):
            self.add("too-many", m, n, f"what is missing is filled up with {self.filled(v.len)} more than asked for")
        elif not self.mentioned(m):
            self.add("too-many", m, n, "the number of solutions asked for is not used")
        elif self.whole(v, s):
            self.add("too-many", m, n, "all solutions are returned whatever number was asked for")
        else:
            self.rep.count("undecided_counts")

    def filled(self, ln):
        """everything that is taken up to some number adds up to more than what was asked for"""
        t = ln
        for _ in range(4):
            for a in list(t.c):
                if a in self.lens.upto:
                    k = t.c[a]
                    t = t - Lin({a: 1}).times(k) + self.lens.upto[a].times(k)
        d = t - self.asked
        return d.k if t != ln and not d.c and d.k > 0 else 0

    def mentioned(self, m):
        ps = ["n_survive"] if "n_survive" in m.all_params else [cparams(m)[1]]
        return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in ps for x in m.walk())

    def whole(self, v, s):
        """exactly the given population, and nothing on the path says that it is small enough"""
        ls = [a for a in v.len.c]
        if len(ls) == 1 and ls[0].startswith("len:pop") and v.len.c[ls[0]] == 1 and v.len.k >= 0:
            k = next(iter(self.asked.c))
            return not any(k in f.c and any(a.startswith(("len", "num")) and a not in (ls[0],) for a in f.c) for f in s.facts)
        return False

    # ------------------------------------------------------------- hooks of the interpreter
    def store_attr(self, L, t, v, st, f, s):
        b = L.eval(t.value, st, f, (f,))
        if t.attr in VALUES and (b.kind == "pop" or (b.extra or {}).get("ind")):
            self.add("given-changed", f, s, f"{ast.unparse(t)[:40]} is assigned")

    def store_sub(self, L, t, base, v, st, f, s):
        if base.kind == "pop" and base.ident in self.given:
            if any(p.startswith("inplace") and st.env.get(p) is not None and st.env[p].lit is True for p in self.m.all_params):
                return
            self.add("given-changed", f, s, f"the given population is changed: {ast.unparse(t)[:40]}")

    def call(self, L, e, nm, st, f, chain):
        fn = e.func
        ev = lambda x: L.eval(x, st, f, chain)
        recv = None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, (ast.Name, ast.Subscript, ast.Attribute)):
            if isinstance(fn.value, ast.Name) and fn.value.id in st.env or isinstance(fn.value, ast.Subscript):
                recv = ev(fn.value)
        if recv is not None and (recv.kind == "pop" or (recv.extra or {}).get("ind")):
            if nm == "set":
                names = [a.value for a in e.args[::2] if isinstance(a, ast.Constant) and isinstance(a.value, str)] + [k.arg for k in e.keywords if k.arg]
                for x in names:
                    if x in VALUES:
                        self.add("given-changed", f, e, f"{x} of the given solutions is set")
                for a in e.args:
                    ev(a)
                self.rep.count("attribute_writes", len(names))
                return Val("other")
            if nm in INPLACE and recv.kind == "pop" and recv.ident in self.given:
                self.add("given-changed", f, e, f"the given population is changed by {nm}")
            if nm in ("copy", "deepcopy") and recv.kind == "pop":
                r = recv.but()
                deep = [k.value for k in e.keywords if k.arg == "deep"] + list(e.args[:1])
                if nm == "deepcopy" or deep and isinstance(deep[0], ast.Constant) and deep[0].value is True:
                    r.prov = False
                return r
        if nm == "shuffle" and e.args:
            v = ev(e.args[0])
            if v.kind == "pop" and v.ident in self.given:
                self.add("given-changed", f, e, "the given population is shuffled")
            return Val("none")
        if nm == "deepcopy" and e.args:
            v = ev(e.args[0])
            if v.kind == "pop" or (v.extra or {}).get("ind"):
                return v.but(prov=False)
            return None
        ts = L.targets(e, f)
        # constructors and class methods of the population
        if self.popc in ts or any(isinstance(t, Func) and t.cls is self.popc and t.name in ("__init__", "__new__") for t in ts):
            if not e.args and not e.keywords:
                return Val("pop", Lin(), True, prov=True)
            v = ev(e.args[0]) if e.args else Val()
            return v.but(kind="pop") if v.kind in ("list", "pop") else Val("pop", prov=v.prov)
        if any(isinstance(t, Func) and t.cls is self.popc and t.name == "new" for t in ts):
            for a in e.args:
                ev(a)
            return Val("pop", dist=None, prov=False)
        if any(isinstance(t, Func) and t.cls is self.popc and t.name == "empty" for t in ts):
            n = ev(e.args[0]) if e.args else None
            return Val("pop", Lin() if n is None else n.num, True if n is None else None, prov=True)
        if any(isinstance(t, Func) and t.cls is self.popc and t.name == "create" for t in ts):
            if len(e.args) == 1:
                v = ev(e.args[0].value if isinstance(e.args[0], ast.Starred) else e.args[0])
                if v.kind in ("pop", "list", "idx", "one"):
                    return v.but(kind="pop", extra=None)
                return Val("pop", prov=v.prov, roots=v.roots)
            m = L.merged([ev(a) for a in e.args])
            return m.but(kind="pop")
        if any(isinstance(t, Func) and t.name == "merge" and (t.cls is self.popc or t.cls is None) for t in ts) or nm == "merge":
            vs = [ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
            if len(vs) == 1:
                return vs[0].but(kind="pop") if vs[0].kind in ("pop", "list") else Val("pop", prov=None)
            if all(v.kind in ("pop", "list", "one") for v in vs):
                return L.merged(vs).but(kind="pop")
            return Val("pop", prov=False if any(v.prov is False for v in vs) else True if all(v.prov for v in vs) else None)
        if self.ind is not None and any(t is self.ind or isinstance(t, Func) and t.cls is self.ind and t.name == "__init__" for t in ts):
            for a in e.args:
                ev(a)
            return Val("one", Lin(k=1), True, prov=False, extra={"ind": True})
        # other survivals
        if nm in ("do", "_do") and (any(k.arg == "n_survive" for k in e.keywords) or any(isinstance(t, Func) and t.cls is not None and self.survivals in t.cls.mro for t in ts)):
            args = [ev(a) for a in e.args]
            kw = {k.arg: ev(k.value) for k in e.keywords if k.arg is not None}
            vals = args + [kw[k] for k in ("pop", "sols") if k in kw]
            p = next((a for a in vals if a.kind == "pop"), None)
            if p is None or "n_survive" not in kw:
                return Val(roots=frozenset())
            n = kw["n_survive"]
            if n.num is not None:
                r = L.part(p, st, len=L.free())
                st.facts += [p.len - r.len, n.num - r.len]
                st.cases.append([[r.len - n.num], [r.len - p.len]])
            else:
                r = L.part(p, st)
            r.src = r.src | {("picked", r.ident)}
            if (ri := kw.get("return_indices")) is not None and ri.lit is not False:
                r = r.but(kind="idx" if ri.lit is True else "other", ident=None)
            return r
        if nm == "split_by_feasibility":
            p = ev(e.args[0]) if e.args else Val()
            pops = next((k.value for k in e.keywords if k.arg == "return_pop"), None)
            key = ("split", id(e), p.ident)
            a = Val("idx", L.measure(L.free()), dist=True, src=frozenset([("mask", key, True)]), space=frozenset([p.len]))
            b = Val("idx", L.measure(L.free()), dist=True, src=frozenset([("mask", key, False)]), space=frozenset([p.len]))
            st.facts += [p.len - a.len - b.len, a.len + b.len - p.len]
            items = [a, b]
            if pops is not None and isinstance(pops, ast.Constant) and pops.value is True and p.kind == "pop":
                items += [Val("pop", x.len, p.dist, p.src | x.src, None, p.prov) for x in (a, b)]
            return Val("tuple", items=items)
        if nm == "do" and self.is_sorting(fn, ts):
            vals = [ev(a) for a in e.args]
            space = frozenset([vals[0].len]) if vals and vals[0].kind == "rows" else frozenset()
            kw = {k.arg: k.value for k in e.keywords if k.arg}
            on = lambda k: k in kw and isinstance(kw[k], ast.Constant) and kw[k].value is True
            if on("only_non_dominated_front"):
                return Val("idx", dist=True, space=space)
            stop = ev(kw["n_stop_if_ranked"]) if "n_stop_if_ranked" in kw else None
            fr = Val("fronts", extra={**({"stop": stop.num} if stop is not None and stop.num is not None else {}), "space": space})
            return Val("tuple", items=[fr, Val("rows")]) if on("return_rank") else fr
        # indices that are drawn, and the matrix of parents
        if self.mode == "selection" and self.size is not None:
            arg = None
            if nm in ("choice", "permutation") and e.args and isinstance(fn, ast.Attribute):
                arg = ev(e.args[0]).num
            elif nm in ("integers", "randint") and e.args:
                arg = ev(e.args[1] if len(e.args) > 1 and not (isinstance(e.args[1], ast.Constant) and e.args[1].value is None) else e.args[0]).num
                if arg is not None and any(k.arg == "endpoint" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
                    arg = arg + 1
            elif nm == "random_permutations" and len(e.args) > 1:
                arg = ev(e.args[1]).num
            if arg is not None and any(k in arg.c for k in self.size.c):
                self.rep.count("drawn_indices")
                d = arg - self.size
                if not d.c and d.k > 0:
                    self.add("outside-the-population", f, e, f"{ast.unparse(e)[:60]} can draw an index that does not exist")
            if nm == "reshape" and self.shape is not None:
                t = e.args[-1] if e.args else None
                if isinstance(t, ast.Tuple):
                    ns = [ev(x).num for x in t.elts]
                    return Val("rows", extra={"shape": tuple(ns)})
                if len(e.args) >= 2:
                    ns = [ev(x).num for x in e.args[-2:]]
                    return Val("rows", extra={"shape": tuple(ns)})
        # evaluating
        if self.evaluator is not None and any(isinstance(t, Func) and t.cls is not None and self.evaluator in t.cls.mro and t.name in ("eval", "_eval") for t in ts):
            if any(ev(a).kind == "pop" for a in e.args):
                self.add("given-changed", f, e, "solutions are evaluated")
        return None

    def is_sorting(self, fn, ts):
        if any(isinstance(t, Func) and t.cls is not None and (t.cls is self.nds or self.nds in t.cls.mro) for t in ts):
            return True
        return isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Attribute) and fn.value.attr == "nds"

    def made(self, L, e, nm, ts, args, kw, st, f):
        for t in ts:
            if isinstance(t, Func) and t.cls is not None and any(k in t.cls.mro for k in self.makers) and t.name in ("do", "__call__", "_do"):
                return False
        return None


# ---------------------------------------------------------------------------------------------- objects that keep track
def pickers(repo, rep):
    """a class that collects picked indices in a list and marks them in an array: a new array must contain the marks"""
    for c in repo.classes.values():
        picks = set()
        for m in c.methods.values():
            sn = m.selfname
            if not sn or m.name == "__init__":
                continue
            lists, marks = set(), set()
            for n in m.walk():
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and own(n.func.value, sn) and n.args and isinstance(n.args[0], ast.Name):
                    lists.add((own(n.func.value, sn), n.args[0].id))
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and own(n.targets[0].value, sn) and isinstance(n.targets[0].slice, ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                    marks.add((own(n.targets[0].value, sn), n.targets[0].slice.id))
            picks |= {(a, b, m.name) for a, i in lists for b, j in marks if i == j and i in m.all_params}
        for a, b, nm in sorted(picks):
            for m in c.methods.values():
                sn = m.selfname
                if not sn or m.name in ("__init__", nm):
                    continue
                new = [n for n in m.walk() if isinstance(n, ast.Assign) and any(own(t, sn) == b for t in n.targets)]
                if not new:
                    continue
                rep.count("picker_resets")
                again = any(isinstance(n, ast.Attribute) and own(n, sn) == a for n in m.walk()) or any(
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == sn for n in m.walk())
                if not again:
                    rep.add("picked-twice", m.id, f"{m.module.rel}:{new[0].lineno}", f"self.{b} is created again without the marks of what is collected in self.{a}")


def own(e, sn):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == sn else None


# ---------------------------------------------------------------------------------------------- tournaments
def contests(repo, rep):
    for f in list(repo.funcs.values()):
        if f.cls is not None or len(f.params) < 2 or f.params[0] != "pop":
            continue
        P = f.params[1]
        for loop in [n for n in f.walk() if isinstance(n, ast.For)]:
            c = Contest(repo, rep, f, P, loop)
            if c.relevant():
                rep.count("tournaments")
                rep.sample("tournaments", f.id)
                c.check()


class Contest:
    """one round: what is stored as the winner"""

    def __init__(self, repo, rep, f, P, loop):
        self.repo, self.rep, self.f, self.P, self.loop = repo, rep, f, P, loop
        self.index = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        self.row = None
        it = loop.iter
        if isinstance(it, ast.Name) and it.id == P and isinstance(loop.target, ast.Name):
            self.row = loop.target.id
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(it.args[0], ast.Name) and it.args[0].id == P and isinstance(loop.target, ast.Tuple):
            t = loop.target.elts[1]
            self.index = {loop.target.elts[0].id}
            if isinstance(t, ast.Name):
                self.row = t.id
            else:
                self.row = {x.id for x in t.elts if isinstance(x, ast.Name)} if isinstance(t, (ast.Tuple, ast.List)) else None
        self.slots = {n.value.id for n in ast.walk(loop) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Name) and n.slice.id in self.index}

    def relevant(self):
        if not self.slots:
            return False
        return any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == self.P for n in ast.walk(self.loop)) or self.row is not None

    def check(self):
        env = {}
        if isinstance(self.row, set):
            env.update({r: "contestant" for r in self.row})
        elif self.row:
            env[self.row] = "row"
        for i in self.index:
            env[i] = "round"
        ends = self.block(self.loop.body, (env, {s: "none" for s in self.slots}))
        for env, slots in ends:
            for s, k in slots.items():
                self.rep.count("contest_results")
                if k in ("none", "maybe", "round", "constant", "solution", "elsewhere"):
                    what = {"none": "no winner is stored on a path", "maybe": "the winner can be None", "round": "the number of the round is stored as the winner", "constant": "a constant is stored as the winner",
                            "solution": "a solution is stored instead of its index", "elsewhere": "a contestant of another round is stored as the winner"}[k]
                    self.rep.add("tournament-result", self.f.id, f"{self.f.module.rel}:{self.loop.lineno}", what)

    def block(self, body, st):
        cur = [st]
        for s in body:
            nxt = []
            for c in cur:
                nxt += self.stmt(s, c)
            # joined: keep distinct outcomes only
            seen, cur = set(), []
            for e, k in nxt:
                key = (tuple(sorted(e.items())), tuple(sorted(k.items())))
                if key not in seen:
                    seen.add(key)
                    cur.append((e, k))
        return cur

    def stmt(self, s, st):
        env, slots = st
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            env, slots = dict(env), dict(slots)
            if isinstance(t, (ast.Tuple, ast.List)):
                vs = s.value.elts if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) else None
                k = self.kind(s.value, st)
                for j, x in enumerate(t.elts):
                    if isinstance(x, ast.Name):
                        env[x.id] = self.kind(vs[j], st) if vs is not None else "contestant" if k == "row" else "?"
            elif isinstance(t, ast.Name):
                env[t.id] = self.kind(s.value, st)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in slots and isinstance(t.slice, ast.Name) and t.slice.id in self.index:
                slots[t.value.id] = self.kind(s.value, st)
            return [(env, slots)]
        if isinstance(s, ast.If):
            out = []
            known = self.undecided(s.test)
            for side, body in ((True, s.body), (False, s.orelse)):
                e, k = dict(env), dict(slots)
                if known is not None:
                    slot, when = known
                    v = k.get(slot, e.get(slot))
                    d = k if slot in k else e
                    if side == when:
                        if v in ("contestant", "round", "constant", "solution"):
                            continue
                        if v == "maybe":
                            d[slot] = "none"
                    else:
                        if v == "none":
                            continue
                        if v == "maybe":
                            d[slot] = "contestant"
                out += self.block(body, (e, k))
            return out
        if isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
            k = dict(slots)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in k or isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in k:
                    k[n.id if isinstance(n, ast.Name) else n.value.id] = "?"
            return [(env, k)]
        return [st]

    def undecided(self, t):
        """(slot, True if the test means that there is no winner yet)"""
        neg = False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        x, when = None, None
        if isinstance(t, ast.Call) and (isinstance(t.func, ast.Attribute) and t.func.attr == "isnan") and t.args:
            x, when = t.args[0], True
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            x, when = t.left, isinstance(t.ops[0], (ast.Is, ast.Eq))
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in self.slots:
            return x.value.id, when != neg
        if isinstance(x, ast.Name):
            return x.id, when != neg
        return None

    def kind(self, e, st):
        env, slots = st
        if isinstance(e, ast.Name):
            return env.get(e.id, "?")
        if isinstance(e, ast.Constant):
            return "none" if e.value is None else "constant"
        if isinstance(e, ast.Subscript):
            b = e.value
            if isinstance(b, ast.Name) and b.id == self.P:
                first = e.slice.elts[0] if isinstance(e.slice, ast.Tuple) and e.slice.elts else e.slice
                if isinstance(first, ast.Constant) or isinstance(first, ast.BinOp) and isinstance(first.op, (ast.Add, ast.Sub)) and any(isinstance(x, ast.Name) and x.id in self.index for x in ast.walk(first)):
                    return "elsewhere"
                if isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2 and not any(isinstance(x, ast.Slice) for x in e.slice.elts):
                    return "contestant"
                return "row" if isinstance(e.slice, (ast.Name, ast.Constant, ast.Tuple)) else "?"
            if isinstance(b, ast.Name) and b.id == "pop":
                return "solution"
            if isinstance(b, ast.Name) and b.id in slots:
                return slots[b.id]
            k = self.kind(b, st)
            if k == "elsewhere":
                return k
            if k == "row" and not isinstance(e.slice, ast.Slice):
                return "contestant"
            return "?"
        if isinstance(e, ast.IfExp):
            a, b = self.kind(e.body, st), self.kind(e.orelse, st)
            return a if a == b else next((x for x in ("round", "constant", "solution", "elsewhere", "none") if x in (a, b) and "?" not in (a, b)), "?")
        if isinstance(e, (ast.List, ast.Tuple)):
            ks = {self.kind(x, st) for x in e.elts}
            return "row" if ks == {"contestant"} else "?"
        if isinstance(e, ast.Call):
            fn = e.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
            if nm == "int" and e.args:
                return self.kind(e.args[0], st)
            if nm == "choice" and e.args:
                return "contestant" if self.kind(e.args[0], st) == "row" else "?"
            if nm in ("integers", "randint", "random"):
                return "constant"
            ts = [t for t in self.repo.resolve_call(e, self.f, fallback=False) if isinstance(t, Func)]
            if len(ts) == 1 and nm == "compare":
                return self.compared(e, ts[0], st)
        return "?"

    def compared(self, e, t, st):
        """the result of a comparison: opened with the constant arguments of this call"""
        m, star, dstar, extra, xkw = bind_args(e, t)
        env = {}
        for p in t.all_params:
            if p in m:
                env[p] = ("const", m[p].value) if isinstance(m[p], ast.Constant) else ("val", self.kind(m[p], st))
            elif p in t.defaults and isinstance(t.defaults[p], ast.Constant):
                env[p] = ("const", t.defaults[p].value)
        res = set()
        self.open(t.body, env, res, t)
        if not res:
            return "?"
        if res & {"round", "solution", "elsewhere"}:
            return sorted(res & {"round", "solution", "elsewhere"})[0]
        if "?" in res:
            return "?"
        if res == {"contestant"}:
            return "contestant"
        if res <= {"contestant", "none"}:
            return "maybe"
        return next(iter(sorted(res - {"contestant", "none"})), "?")

    def open(self, body, env, res, t):
        """collects the kinds of the returned values; True if the end can be reached"""
        for s in body:
            if isinstance(s, ast.Return):
                res.add(self.result(s.value, env))
                return False
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, ast.If):
                c = self.cond(s.test, env)
                go = False
                if c is not False:
                    go |= self.open(s.body, env, res, t)
                if c is not True:
                    go |= self.open(s.orelse, env, res, t)
                if not go:
                    return False
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                r = self.result(s.value, env)
                env[s.targets[0].id] = ("val", r)
            elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                res.add("?")
        if body is t.body:
            res.add("none")
        return True

    def cond(self, t, env):
        if isinstance(t, ast.Name) and env.get(t.id, ("", None))[0] == "const":
            return bool(env[t.id][1])
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            c = self.cond(t.operand, env)
            return None if c is None else not c
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            a, b = t.left, t.comparators[0]
            va = ("const", a.value) if isinstance(a, ast.Constant) else env.get(a.id) if isinstance(a, ast.Name) else None
            vb = ("const", b.value) if isinstance(b, ast.Constant) else env.get(b.id) if isinstance(b, ast.Name) else None
            if va and vb and va[0] == vb[0] == "const":
                return (va[1] == vb[1]) == isinstance(t.ops[0], ast.Eq)
        return None

    def result(self, e, env):
        if e is None or isinstance(e, ast.Constant) and e.value is None:
            return "none"
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            return "?" if v is None else v[1] if v[0] == "val" else "constant"
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "choice" and e.args and isinstance(e.args[0], (ast.List, ast.Tuple)):
            return self.oneof(e.args[0].elts, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("integers", "randint", "random"):
            return "constant"
        if isinstance(e, ast.IfExp):
            return self.oneof((e.body, e.orelse), env)
        return "?"

    def oneof(self, es, env):
        ks = {self.result(x, env) for x in es}
        return ks.pop() if len(ks) == 1 else next((k for k in ("round", "solution", "elsewhere") if k in ks), "?")


# ---------------------------------------------------------------------------------------------- self-tests
CORE = '''
import numpy as np


class Individual:
    pass


class Population(np.ndarray):
    @classmethod
    def merge(cls, a, b):
        return cls(a, b)

    @classmethod
    def create(cls, *args):
        return cls(args)

    @classmethod
    def new(cls, *args):
        return cls(args)


class NonDominatedSorting:
    def do(self, F, return_rank=False, n_stop_if_ranked=None):
        pass


class Survival:
    def do(self, problem, pop, *args, n_survive=None, **kwargs):
        n_survive = min(n_survive, len(pop))
        if problem.has_constraints():
            feas, infeas = split_by_feasibility(pop)
            survivors = self._do(problem, pop[feas], *args, n_survive=min(len(feas), n_survive), **kwargs)
            n_remaining = n_survive - len(survivors)
            if n_remaining > 0:
                survivors = Population.merge(survivors, pop[infeas[:n_remaining]])
            return survivors
        return self._do(problem, pop, *args, n_survive=n_survive, **kwargs)


def split_by_feasibility(pop):
    b = pop.get("FEAS")
    return np.where(b)[0], np.where(~b)[0]


class Fronts(Survival):
    def _do(self, problem, pop, *args, n_survive=None, **kwargs):
        F = pop.get("F")
        survivors = []
        fronts = NonDominatedSorting().do(F, n_stop_if_ranked=n_survive)
        for k, front in enumerate(fronts):
            I = np.arange(len(front))
            if len(survivors) + len(front) > n_survive:
                I = np.argsort(F[front, 0])[: n_survive - len(survivors)]
            pop[front].set("rank", k)
            survivors.extend(front[I])
        return pop[survivors]


class Niches(Survival):
    def _do(self, problem, pop, *args, n_survive=None, random_state=None, **kwargs):
        S = []
        free = np.full(len(pop), True)
        while len(S) < n_survive:
            k = random_state.choice(np.where(free)[0])
            S.append(k)
            free[k] = False
        return pop[S]


class Marks(Survival):
    def _do(self, problem, pop, *args, n_survive=None, **kwargs):
        F = pop.get("F")
        taken = F[:, 0] < F.mean()
        last = np.arange(len(taken))[~taken]
        order = np.argsort(F[last, 0])
        taken[last[order[: n_survive - np.sum(taken)]]] = True
        return pop[taken]


class Cells(Survival):
    def _do(self, problem, pop, *args, n_survive=None, **kwargs):
        F = pop.get("F")
        cells = [[] for _ in range(n_survive)]
        for k, i in enumerate(F.argmin(axis=1)):
            cells[i].append(k)
        S = []
        for j in range(n_survive):
            cell = cells[j]
            if len(cell) > 0:
                S.append(cell[F[cell, 0].argmin()])
        return pop[S]


class Replace(Survival):
    def _do(self, problem, pop, off, **kwargs):
        pop = pop.copy()
        for k in range(len(pop)):
            if off[k].F < pop[k].F:
                pop[k] = off[k]
        return pop


class Selection:
    def do(self, problem, pop, n_select, n_parents, **kwargs):
        return pop[self._do(problem, pop, n_select, n_parents, **kwargs)]


class Random(Selection):
    def _do(self, problem, pop, n_select, n_parents, random_state=None, **kwargs):
        P = random_state.choice(len(pop), n_select * n_parents)
        return np.reshape(P, (n_select, n_parents))


def compare(a, a_val, b, b_val, random_if_equal=False, random_state=None):
    if a_val < b_val:
        return a
    elif a_val > b_val:
        return b
    elif random_if_equal:
        return random_state.choice([a, b])
    return None


def tournament(pop, P, random_state=None, **kwargs):
    S = np.full(len(P), np.nan)
    for i in range(len(P)):
        a, b = P[i, 0], P[i, 1]
        S[i] = compare(a, pop[a].F, b, pop[b].F)
        if np.isnan(S[i]):
            S[i] = compare(a, pop[a].CV, b, pop[b].CV, random_if_equal=True, random_state=random_state)
    return S


class Picker:
    def __init__(self, n):
        self.n = n
        self.S = []
        self.C = np.full(n, False)

    def reset(self):
        self.C = np.full(self.n, False)
        self.C[self.S] = True

    def select(self, k):
        self.S.append(k)
        self.C[k] = True
'''


def changed(*subs):
    s = CORE
    for a, b in subs:
        assert s.count(a) >= 1, a
        s = s.replace(a, b, 1)
    return {"pymoo/core.py": s}


C = "pymoo.core:"
SELFTESTS = [
    ("clean", changed(), []),
    ("rest", changed(("pop[infeas[:n_remaining]]", "pop[infeas]")), [("too-many", C + "Survival.do")]),
    ("one more", changed(("infeas[:n_remaining]", "infeas[:n_remaining + 1]")), [("too-many", C + "Survival.do")]),
    ("filled", changed(("            n_remaining = n_survive - len(survivors)\n            if n_remaining > 0:\n                survivors = Population.merge(survivors, pop[infeas[:n_remaining]])\n", "            survivors = self._fill(pop, survivors, infeas, n_survive)\n"),
                       ("def split_by", "def _unused():\n    pass\n\n\ndef split_by"), ("class Survival:\n", "class Survival:\n    def _fill(self, pop, survivors, rest, n):\n        k = max(0, n - len(survivors))\n        return Population.merge(survivors, pop[rest[:k]])\n\n")), []),
    ("front", changed((": n_survive - len(survivors)]", ": n_survive]")), [("too-many", C + "Fronts._do")]),
    ("split", changed(("if len(survivors) + len(front) > n_survive:", "if len(front) > n_survive:")), [("too-many", C + "Fronts._do")]),
    ("collected by a helper", changed(("            survivors.extend(front[I])\n", "            self._add(survivors, front, I)\n"), ("class Fronts(Survival):\n", "class Fronts(Survival):\n    def _add(self, survivors, front, I):\n        for i in front[I]:\n            survivors.append(i)\n\n")), []),
    ("empty slice", changed((": n_survive - len(survivors)]", ": -(len(survivors) + len(front) - n_survive)]"), ("len(front) > n_survive", "len(front) >= n_survive")), [("negative-slice", C + "Fronts._do")]),
    ("kept in the pool", changed(("            free[k] = False\n", "")), [("picked-twice", C + "Niches._do")]),
    ("too long", changed(("while len(S) < n_survive", "while len(S) <= n_survive")), [("too-many", C + "Niches._do")]),
    ("given", changed(("        pop = pop.copy()\n", "")), [("given-changed", C + "Replace._do")]),
    ("values", changed(('pop[front].set("rank", k)', 'pop[front].set("F", k)')), [("given-changed", C + "Fronts._do")]),
    ("new", changed(("        return pop[survivors]\n", "        return Population.new(pop[survivors])\n")), [("foreign-member", C + "Fronts._do")]),
    ("index", changed(("choice(len(pop),", "choice(len(pop) + 1,")), [("outside-the-population", C + "Random._do")]),
    ("shape", changed(("(n_select, n_parents))\n", "(n_parents, n_select))\n")), [("wrong-shape", C + "Random._do")]),
    ("no winner", changed(("random_if_equal=True, ", "")), [("tournament-result", C + "tournament")]),
    ("round", changed(("    return S\n", "    return S\n"), ("S[i] = compare(a, pop[a].CV, b, pop[b].CV, random_if_equal=True, random_state=random_state)", "S[i] = i")), [("tournament-result", C + "tournament")]),
    ("forgotten", changed(("        self.C[self.S] = True\n", "")), [("picked-twice", C + "Picker.reset")]),
    ("local indices", changed(("survivors.extend(front[I])", "survivors.extend(np.argsort(F[front, 0])[: n_survive - len(survivors)])")), [("wrong-index", C + "Fronts._do")]),
    ("the same part", changed(("pop[infeas[:n_remaining]]", "pop[feas[:n_remaining]]")), [("picked-twice", C + "Survival.do")]),
    ("filled too far", changed(("np.sum(taken)]", "np.sum(taken) + 1]")), [("too-many", C + "Marks._do")]),
    ("marks of a part", changed(("taken[last[order[: n_survive - np.sum(taken)]]]", "taken[order[: n_survive - np.sum(taken)]]")), [("wrong-index", C + "Marks._do")]),
    ("two cells", changed(("            cells[i].append(k)\n", "            cells[i].append(k)\n            if F[k, 0] == F[k, 1]:\n                cells[i - 1].append(k)\n")), [("picked-twice", C + "Cells._do")]),
    ("position in the cell", changed(("cell[F[cell, 0].argmin()]", "F[cell, 0].argmin()")), [("wrong-index", C + "Cells._do")]),
    ("all if there are few", changed(("        return pop[taken]\n", "        return pop[taken] if len(pop) > 2 * n_survive else pop\n")), [("too-many", C + "Marks._do")]),
    ("small populations", changed(("        return pop[taken]\n", "        return pop if len(pop) <= n_survive else pop[taken]\n")), []),
    ("another round", changed(("a, b = P[i, 0], P[i, 1]", "a, b = P[i, 0], P[i - 1, 1]")), [("tournament-result", C + "tournament")]),
    ("number of the round", changed(("S[i] = compare(a, pop[a].CV, b,", "S[i] = compare(a, pop[a].CV, i,")), [("tournament-result", C + "tournament")]),
    ("both", changed(("np.where(~b)[0]", "np.where(b)[0]")), [("picked-twice", C + "split_by_feasibility")]),
]
