"""P19 - offspring are repaired, then checked for duplicates, in every generation."""
import ast
from sa.model import *
from sa.util import *
from sa.flow import Flow, State, Frame

EXPLANATION = (
    "An abstract interpreter follows the state of every collection of candidates (not repaired, repaired, repaired and then compared) through the methods that create them: merging keeps the worst state, operators, samplings and writes of X reset it, repair and the elimination advance it only in that order, "
    "and a comparison counts only if it covers the current population and the candidates collected before. The loop of the infill criterion, the initialisation, the operators with a built-in repair, every algorithm that accepts a repair (all hooks that return, yield or evaluate candidates), "
    "the way the two options travel from the constructors into the criteria an algorithm builds, and the elimination classes themselves are the obligations."
)
ASSUMPTIONS = ["a repair returns feasible designs and an elimination compares what its function extracts", "a criterion that the user builds is configured by the user"]

TOP = ("?", "?", frozenset())
ORDER = {"empty": 0, "exist": 1, "done": 2, "rep": 3, "?": 4, "raw": 5}
PASS = {"array", "asarray", "copy", "reshape", "vstack", "concatenate", "hstack", "row_stack", "atleast_2d", "choice", "permutation", "sorted", "list", "tuple", "unique", "take", "ravel", "flatten", "squeeze", "deepcopy", "zip", "enumerate",
        "reversed", "at_least_2d_array", "astype", "view", "tile", "repeat", "column_stack", "stack", "append", "set", "next", "iter"}


def run(repo, rep):
    rep.rule("unrepaired-candidates", "candidates can be handed out or evaluated without having been repaired")
    rep.rule("not-compared", "candidates can be handed out without having been compared after the repair with the population and the candidates collected before")
    rep.rule("compared-with-a-part", "candidates are compared with a part of the current population only")
    rep.rule("option-dropped", "a repair or an elimination given to an algorithm does not reach the criterion that creates its candidates")
    rep.rule("repair-result-dropped", "a repair does not store or return the repaired designs")
    rep.rule("elimination-incomplete", "an elimination does not compare all pairs or keeps the wrong individuals")
    rep.rule("candidates-changed", "designs of candidates are changed between their creation and their evaluation")
    for n in ("InfillCriterion", "Initialization", "Repair", "DuplicateElimination", "Algorithm"):
        if repo.cls(n, required=False) is None:
            raise AnchorMissing(n)
    K = Kinds(repo)
    criteria(repo, rep, K)
    starts(repo, rep, K)
    operators(repo, rep, K)
    algorithms(repo, rep, K)
    repairs(repo, rep, K)
    eliminations(repo, rep, K)
    handover(repo, rep, K)
    if not getattr(repo, "mini", False):
        for k, m in [("infill_criteria", 1), ("initialisations", 1), ("algorithm_hooks", 40), ("handed_out", 40), ("options_followed", 40), ("repairs", 5), ("eliminations", 3)]:
            rep.floor(k, m)


class Kinds:
    def __init__(self, repo):
        self.repo = repo
        self.inf, self.init, self.repair, self.dup, self.alg = [repo.cls(n) for n in ("InfillCriterion", "Initialization", "Repair", "DuplicateElimination", "Algorithm")]
        self.creators = [c for c in (repo.cls(n, required=False) for n in ("Crossover", "Mutation", "Sampling")) if c is not None]
        self.mutation = repo.cls("Mutation", required=False)
        self.population = repo.cls("Population", required=False)
        self.individual = repo.cls("Individual", required=False)
        self.evaluator = repo.cls("Evaluator", required=False)

    def of(self, cs):
        """role of a set of classes"""
        for c in cs:
            if not isinstance(c, Class):
                continue
            if self.repair in c.mro:
                return "repair"
            if self.dup in c.mro:
                return "dup"
            if self.inf in c.mro:
                return "inf"
            if self.init in c.mro:
                return "init"
            if self.evaluator is not None and self.evaluator in c.mro:
                return "evaluator"
            if self.mutation is not None and self.mutation in c.mro:
                return "mutation"
            if any(k in c.mro for k in self.creators):
                return "creator"
        return None


NAMES = {"repair": "repair", "eliminate_duplicates": "dup", "mating": "inf", "initialization": "init", "evaluator": "evaluator", "mutation": "mutation", "crossover": "creator", "sampling": "creator"}


def worst(a, b):
    return a if ORDER[a] >= ORDER[b] else b


class Candidates(Flow):
    TOP = TOP

    def __init__(self, repo, cls, K, mode, rep=None, conf=None):
        super().__init__(repo, cls)
        self.K, self.mode, self.conf = K, mode, conf or {}
        self.events = []          # (what, node, function, value)
        self.nodes = {}

    # --- domain
    def join(self, a, b):
        if a == b:
            return a
        if a[0] in ("role",) or b[0] in ("role",):
            return TOP
        if "A" in (a[0], b[0]) or "P" in (a[0], b[0]):
            k = "P" if "P" in (a[0], b[0]) else "A"
            if a[0] == "?":
                return (k, worst(b[1], "?") if b[1] != "raw" else "raw", frozenset())
            if b[0] == "?":
                return (k, worst(a[1], "?") if a[1] != "raw" else "raw", frozenset())
            return (k, worst(a[1], b[1]), a[2] & b[2] if a[1] != "empty" and b[1] != "empty" else a[2] & b[2] | (a[2] | b[2]) & {"acc"})
        return TOP

    def const(self, e):
        return TOP

    def role(self, e, base, fr):
        """what kind of object an attribute or a name stands for"""
        cs = self.repo.typeset(e, fr.f)
        r = self.K.of(cs or ())
        if r is None and isinstance(e, ast.Attribute):
            r = NAMES.get(e.attr)
        if r is None and isinstance(e, ast.Name):
            r = NAMES.get(e.id)
        return r

    def attribute(self, e, base, st, fr):
        r = self.role(e, base, fr)
        if r:
            return ("role", r, frozenset([e.attr]))
        selfish = isinstance(e.value, ast.Name) and e.value.id == self.repo.self_name(fr.f)
        if base[0] == "P" and not selfish:
            return ("A", base[1], frozenset()) if e.attr in ("X", "x") else TOP
        if selfish and self.mode in ("algorithm",) and (e.attr in ("pop", "opt", "off", "da", "particles", "swarm", "pbest", "lbest", "sbest", "elites", "archive")):
            return ("P", "exist", frozenset(["cur"]) if e.attr == "pop" else frozenset())
        if isinstance(e.value, ast.Name) and e.value.id == "algorithm" and e.attr in ("pop", "opt", "swarm", "pbest", "lbest"):
            return ("P", "exist", frozenset(["cur"]) if e.attr == "pop" else frozenset())
        return TOP

    def unknown_name(self, name, st, fr):
        r = NAMES.get(name) if name in ("repair", "eliminate_duplicates") else None
        return ("role", r, frozenset([name])) if r else TOP

    def subscript(self, e, base, st, fr):
        if base[0] in ("P", "A"):
            full = isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None
            return base if full else (base[0], base[1], base[2] - {"cur", "pop"} | ({"part"} if base[2] & {"cur", "pop"} else set()))
        if base[0] == "role":
            return base
        return TOP

    def on_loop(self, s, st, fr):
        it, t = s.iter, s.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            it, t = it.args[0], t.elts[1]
        if not hasattr(fr, "alias"):
            fr.alias = {}
        if isinstance(t, ast.Name):
            fr.alias.pop(t.id, None)
            if isinstance(it, (ast.Name, ast.Attribute)) and not (isinstance(it, ast.Name) and it.id == t.id):
                fr.alias[t.id] = it

    def loop_done(self, s, out, fr):
        """a loop that writes the design of every individual of a collection settles the whole collection"""
        if out.dead or not isinstance(s, ast.For):
            return
        it, ts = s.iter, [(s.target, s.iter)]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.args:
            if it.func.id == "enumerate" and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2:
                ts = [(s.target.elts[1], it.args[0])]
            elif it.func.id == "zip" and isinstance(s.target, ast.Tuple):
                ts = list(zip(s.target.elts, it.args))
            elif it.func.id == "range" and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == "len" and isinstance(s.target, ast.Name) and it.args[0].args:
                ts = [(ast.Subscript(value=it.args[0].args[0], slice=s.target, ctx=ast.Load()), it.args[0].args[0])]
        for x in s.body:
            if any(isinstance(y, (ast.Break, ast.Continue, ast.Return)) for y in ast.walk(x)):
                return
            obj = val = None
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr in ("X", "x"):
                obj, val = x.targets[0].value, x.value
            elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "set" and len(x.value.args) == 2 and isinstance(x.value.args[0], ast.Constant) and x.value.args[0].value == "X":
                obj, val = x.value.func.value, x.value.args[1]
            if obj is None:
                continue
            for t, coll in ts:
                if unparse(t, 200) == unparse(obj, 200):
                    src = next((c2 for t2, c2 in ts if isinstance(t2, ast.Name) and isinstance(val, ast.Name) and t2.id == val.id), val)
                    base, v = self.eval(coll, out, fr), self.eval(src, out, fr)
                    if base[0] in ("P", "A") and v[0] in ("P", "A") and v[1] not in ("?", "raw"):
                        self.set_root(coll, (base[0], v[1], base[2]), out, fr)

    def element(self, v, e, st, fr):
        if v[0] in ("P", "A"):
            return (v[0], v[1], v[2] - {"cur", "pop", "acc"})
        return TOP

    def operation(self, e, vals, st, fr):
        if isinstance(e, ast.BoolOp):
            out = vals[0]
            for v in vals[1:]:
                out = self.join(out, v)
            return out
        if isinstance(e, ast.AugAssign) and isinstance(e.op, ast.Add) and any(v[0] == "P" for v in vals):
            return self.merged(vals)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and all(v[0] == "P" for v in vals):
            return self.merged(vals)
        if isinstance(e, (ast.BinOp, ast.AugAssign)) and any(v[0] in ("A", "P") for v in vals):
            return ("A", "raw", frozenset())
        return TOP

    def container(self, e, vals, st, fr):
        vs = [v for v in vals if v[0] in ("P", "A")]
        if isinstance(e, ast.List) and not e.elts:
            return ("P", "empty", frozenset(["acc"]))
        if vs and not isinstance(e, (ast.Dict, ast.DictComp)):
            return self.merged(vs)
        return TOP

    def merged(self, vs):
        vs = [v for v in vs if v[0] in ("P", "A")]
        if not vs:
            return TOP
        s, t = "empty", frozenset()
        for v in vs:
            s = worst(s, v[1])
            t = t | v[2]
        return ("P" if any(v[0] == "P" for v in vs) else "A", s, t)

    def store_attr(self, t, v, st, fr):
        if t.attr in ("X", "x") and not (isinstance(t.value, ast.Name) and t.value.id == self.repo.self_name(fr.f)):
            self.changed(t.value, v, st, fr, isinstance(t.value, ast.Subscript))

    def store_sub(self, t, v, st, fr):
        base = self.eval(t.value, st, fr)
        if base[0] in ("P", "A"):
            if v[0] in ("P", "A"):
                full = isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None
                new = (base[0], v[1], base[2]) if full or self.selects_all(t.slice, base, st, fr) else (base[0], worst(base[1], v[1]), base[2])
                new = self.noted(base, new, t.slice, v[1])
            else:
                new = (base[0], worst(base[1], "raw") if base[0] == "A" else worst(base[1], "?"), base[2])
            self.set_root(t.value, new, st, fr)

    def noted(self, old, new, sl, written):
        """some individuals of a collection are replaced: remember which, so that repairing the same ones settles it"""
        if not isinstance(sl, (ast.Name, ast.Attribute)):
            return new
        key = "at:" + unparse(sl, 60) + ":"
        if written == "raw" and old[1] != "raw":
            return (new[0], new[1], new[2] | {key + old[1]})
        if written in ("rep", "exist", "done"):
            for t in old[2]:
                if t.startswith(key):
                    return (new[0], worst(t[len(key):], written), new[2] - {t})
        return new

    def selects_all(self, sl, base, st, fr):
        """the index set of everything that has not been evaluated yet"""
        if isinstance(sl, ast.Name):
            for v in self.repo.local_assigns(fr.f).get(sl.id, []):
                if v is not None and any(isinstance(n, (ast.Attribute, ast.Constant)) and (getattr(n, "attr", None) == "evaluated" or getattr(n, "value", None) == "evaluated") for n in ast.walk(v)):
                    return True
            for n in fr.f.walk():
                if isinstance(n, ast.If) and any(isinstance(x, ast.Attribute) and x.attr == "evaluated" for x in ast.walk(n.test)) and any(
                        isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "append" and isinstance(y.func.value, ast.Name) and y.func.value.id == sl.id for y in ast.walk(n)):
                    return True
        return any(isinstance(n, ast.Attribute) and n.attr == "evaluated" for n in ast.walk(sl))

    def changed(self, e, v, st, fr, weak):
        """designs are written"""
        root = e
        while isinstance(root, (ast.Subscript,)):
            root, weak = root.value, True
        base = self.eval(root, st, fr)
        if base[0] not in ("P", "A"):
            return
        al = getattr(fr, "alias", {})
        if isinstance(root, ast.Name) and root.id in al:      # an individual of a collection that is gone through
            self.changed(al[root.id], v, st, fr, True)
        s = v[1] if v[0] in ("A", "P") and v[1] != "?" else "raw"
        keep = base[2] if s != "raw" else base[2] - {"d"}
        self.set_root(root, (base[0], worst(base[1], s) if weak and base[1] != "?" else s, keep), st, fr)

    # --- calls
    def before_call(self, e, ts, recv, args, st, fr):
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        pos = [(n, v) for k, n, v in args if k is None]
        kw = {k: (n, v) for k, n, v in args if k is not None}
        pops = [(n, v) for n, v in pos + list(kw.values()) if v[0] in ("P", "A")]
        role = None
        if isinstance(fn, ast.Attribute) and nm in ("do", "__call__", "_do") and recv is not None and recv[0] == "role":
            role, holder = recv[1], fn.value
        elif isinstance(fn, (ast.Attribute, ast.Name)) and not (isinstance(fn, ast.Attribute) and recv is not None and recv[0] == "role" and nm in ("do", "_do", "eval")):
            v = self.eval(fn, st, fr) if not any(isinstance(t, Func) for t in ts) or self.role(fn, None, fr) else TOP
            if v == TOP and not any(isinstance(t, (Func, Class)) and not (isinstance(t, Func) and t.name == "__call__") for t in ts):
                r = self.role(fn, None, fr)
                v = ("role", r, frozenset()) if r else v
            if v[0] == "role" and v[1] in ("repair", "inf", "creator", "mutation", "init", "dup"):
                role, holder = v[1], fn
        if role is None and isinstance(fn, ast.Attribute) and nm in ("do",):
            r = self.K.of(self.repo.typeset(fn.value, fr.f) or ())
            if r:
                role, holder = r, fn.value
        if role is None and isinstance(fn, ast.Attribute) and nm == "eval" and (recv == TOP or recv[0] == "role") and (recv[0] == "role" and recv[1] == "evaluator" or self.K.of(self.repo.typeset(fn.value, fr.f) or ()) == "evaluator"):
            if pops:
                n, v = pops[-1] if len(pos) < 2 else next(((n, v) for n, v in pops if n is pos[1][0]), pops[-1])
                self.events.append(("evaluated", e, fr.f, v))
                out = (v[0], "exist" if v[1] in ("empty", "exist") else v[1], v[2])
                return (out,)
            return (TOP,)
        if role == "repair":
            tgt = next(((n, v) for n, v in reversed(pops)), None)
            if tgt is None:
                tgt = (pos[1][0], self.eval(pos[1][0], st, fr)) if len(pos) > 1 else None
                if tgt is None:
                    return (TOP,)
                return ((("P", "rep", frozenset())),)
            n, v = tgt
            new = (v[0], "rep" if v[1] != "empty" else "empty", v[2] - {"d"})
            self.touch(n, v, new, st, fr)
            return (new,)
        if role == "dup":
            if not pos or pos[0][1][0] not in ("P", "A"):
                return (TOP,)
            n, v = pos[0]
            others = frozenset().union(*[w[2] for _, w in pos[1:]]) if len(pos) > 1 else frozenset()
            own = kw.get("to_itself")
            itself = own is None or not (isinstance(own[0], ast.Constant) and own[0].value is False)
            if isinstance(e.args[-1], ast.Starred) and len(pos) > 1:
                others = others | {"pop", "acc", "cur"}
            done = v[1] == "rep" and itself and self.enough(others)
            s = "done" if done else v[1]
            return ((v[0], s, v[2]),)
        if role in ("inf", "init"):
            for x in ([pos[1][1]] if role == "inf" and len(pos) > 1 else [kw["pop"][1]] if role == "inf" and "pop" in kw else []):
                self.events.append(("current", e, fr.f, x))
            s = self.conf.get(role)
            if s is None:
                return (("P", "done", frozenset()),)
            return (("P", s(holder, fr), frozenset()),)
        if role == "creator":
            return (("P", "raw", frozenset()),)
        if role == "mutation":
            inplace = kw.get("inplace")
            if not (inplace is not None and isinstance(inplace[0], ast.Constant) and inplace[0].value is False):
                for n, v in pops[-1:]:
                    self.touch(n, v, (v[0], "raw", v[2]), st, fr)
            return (("P", "raw", frozenset()),)
        # collections
        cls = next((t.cls for t in ts if isinstance(t, Func) and t.cls is not None), None)
        ctor = next((t for t in ts if isinstance(t, Class)), None) or (cls if nm == (cls.name if cls else None) else None)
        made = self.repo.resolve(fn, fr.f.module, fr.f)
        made = made if isinstance(made, Class) else None
        if made is not None and self.K.of([made]) in ("creator", "mutation"):
            return (("role", self.K.of([made]), frozenset()),)
        P = self.K.population
        if P is not None and cls is not None and P in cls.mro or P is not None and made is not None and P in made.mro:
            if nm == "merge":
                return (self.merged([v for _, v in pos]) if pos else TOP,)
            if nm in ("create", "empty") or made is not None:
                if not pos and not kw or nm == "empty":
                    return (("P", "empty", frozenset(["acc"])),)
                m = self.merged([v for _, v in pos])
                return (m if m[0] != "?" else ("P", "raw", frozenset()),)
            if nm == "new":
                x = kw.get("X")
                if x is None and len(pos) >= 2:
                    x = next((pos[i + 1] for i in range(0, len(pos) - 1, 2) if isinstance(pos[i][0], ast.Constant) and pos[i][0].value == "X"), None)
                if x is None:
                    return (("P", "raw", frozenset()),) if pos or kw else (("P", "empty", frozenset(["acc"])),)
                return (("P", x[1][1] if x[1][0] in ("A", "P") and x[1][1] not in ("?",) else "raw", frozenset()),)
        if made is not None and self.K.individual is not None and self.K.individual in made.mro:
            x = kw.get("X")
            return (("P", x[1][1] if x is not None and x[1][0] in ("A", "P") and x[1][1] != "?" else "raw", frozenset()),)
        if isinstance(fn, ast.Attribute) and recv is not None and recv[0] in ("P", "A"):
            if nm == "get":
                ks = [n.value for n, _ in pos if isinstance(n, ast.Constant)]
                return (("A", recv[1], frozenset()) if "X" in ks else TOP,)
            if nm == "set":
                ws = [pos[i + 1] for i in range(0, len(pos) - 1, 2) if isinstance(pos[i][0], ast.Constant) and pos[i][0].value == "X"] + [w for k, w in kw.items() if k == "X"]
                for n, w in ws:
                    self.changed(fn.value, w, st, fr, False)
                return (self.eval(fn.value, st, fr),)
            if nm in ("append", "extend", "insert", "add"):
                vs = [v for _, v in pos if v[0] in ("P", "A")]
                new = self.merged([recv] + vs) if vs else recv if recv[1] == "?" else (recv[0], "raw", recv[2]) if recv[1] == "empty" else recv
                self.set_root(fn.value, new, st, fr)
                return (new if nm == "add" else TOP,)
            if nm in ("copy", "view", "flatten", "reshape", "astype", "tolist", "pop", "ravel", "squeeze"):
                return (recv,)
        if nm in PASS and not any(isinstance(t, Func) for t in ts):
            return (self.merged([v for _, v in pops]) if pops else TOP,)
        return None

    def enough(self, others):
        if self.mode == "infill":
            return {"pop", "acc"} <= others
        if self.mode == "algorithm":
            return "cur" in others or "acc" in others
        return True

    def touch(self, n, old, new, st, fr):
        weak, idx = False, None
        while isinstance(n, ast.Subscript):
            idx = n.slice
            n, weak = n.value, True
        if weak:
            b = self.eval(n, st, fr)
            if b[0] in ("P", "A") and ORDER[new[1]] > ORDER[b[1]]:
                self.set_root(n, self.noted(b, (b[0], new[1], b[2]), idx, new[1]), st, fr)
            elif b[0] in ("P", "A"):
                self.set_root(n, self.noted(b, b, idx, new[1]), st, fr)
        else:
            self.set_root(n, new, st, fr)

    def opens(self, t, e, fr):
        if self.mode == "infill" and t.name == "_do" or self.mode == "operator" and t.name in ("do", "_do"):
            return False
        if t.cls is not None and t.name in ("do", "__call__") and (self.K.inf in t.cls.mro or self.K.dup in t.cls.mro or self.K.repair in t.cls.mro):
            return t.cls in (self.cls.mro if self.cls is not None else ())
        return t.name not in ("setup", "has_bounds", "bounds")

    def external(self, e, ts, recv, args, st, fr):
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        if self.mode == "infill" and nm == "_do":
            return ("P", "raw", frozenset())
        if self.mode == "operator" and nm in ("do", "_do"):
            return ("P", "raw", frozenset())
        if self.mode == "repair" and nm == "_do":
            return ("A", "rep", frozenset())
        vs = [v for _, _, v in args if v[0] == "P"]
        if vs:
            m = self.merged(vs)
            return (m[0], m[1], m[2] - {"cur", "pop", "acc"})
        if any(v[0] == "A" for _, _, v in args):
            return ("A", "raw", frozenset())
        if recv is not None and recv[0] == "P":
            return recv
        return TOP

    # --- conditions
    def branch(self, test, st, fr, taken):
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, taken = t.operand, not taken
        if isinstance(t, ast.BoolOp):
            need = isinstance(t.op, ast.And)
            if taken == need:
                for x in t.values:
                    st = self.branch(x, st, fr, taken)
                    if st is None:
                        return None
            return st
        # without a repair there is nothing to do
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            given = taken == isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
            v = self.eval(t.left, st, fr)
            if v[0] == "role" and v[1] in ("repair", "dup") and not given:
                return None
        elif isinstance(t, (ast.Attribute, ast.Name)):
            v = self.eval(t, st, fr)
            if v[0] == "role" and v[1] in ("repair", "dup") and not taken:
                return None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2:
            v = self.eval(t.args[0], st, fr)
            k = self.repo.resolve(t.args[1], fr.f.module, fr.f)
            if v[0] == "role" and isinstance(k, Class) and k.name.startswith("No") and (self.K.repair in k.mro or self.K.dup in k.mro) and taken:
                return None
        # nothing left to repair: the guard around the repair of what has not been evaluated yet
        idx = self.empty_test(t, taken, st, fr)
        if idx is not None:
            for nm, v in list(st.env.items()):
                if v[0] == "P" and v[1] == "raw" and idx == "evaluated":
                    st.env[nm] = (v[0], "rep", v[2])
                elif v[0] == "P" and any(t.startswith("at:" + idx + ":") for t in v[2]):
                    t = next(t for t in v[2] if t.startswith("at:" + idx + ":"))
                    st.env[nm] = (v[0], t.rsplit(":", 1)[1], v[2] - {t})
                elif nm == idx:
                    st.env[nm] = (v[0], "empty" if v[0] == "P" else v[1], v[2])
        return st

    def empty_test(self, t, taken, st, fr):
        """the name of the collection (or 'evaluated' for an index set of unevaluated individuals) that is empty on this side"""
        x, empty = t, not taken
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (0, 1):
            x, z, o = t.left, t.comparators[0].value, t.ops[0]
            pos = {(ast.Gt, 0): True, (ast.NotEq, 0): True, (ast.GtE, 1): True, (ast.Eq, 0): False, (ast.Lt, 1): False, (ast.LtE, 0): False}.get((type(o), z))
            if pos is None:
                return None
            empty = taken != pos
        if not empty:
            return None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "any", "bool", "sum") and x.args:
            x = x.args[0]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("any", "sum"):
            x = x.func.value if not x.args else x.args[0]
        elif x is t:
            if not isinstance(x, ast.Name):
                return None
        if isinstance(x, ast.Name):
            if self.selects_all(x, None, st, fr):
                return "evaluated"
            return x.id
        return None


def finding(rep, rule, f, n, text, tag=""):
    rep.add(rule, f"{f.id}{':' + tag if tag else ''}", f"{f.module.rel}:{getattr(n, 'lineno', f.lineno)} {f.qual}", text)


# ------------------------------------------------------------------ the criteria
def criteria(repo, rep, K):
    seen = set()
    for c in sorted(K.inf.family(), key=lambda c: c.id):
        m = c.lookup("do")
        if m is None or m in seen:
            continue
        seen.add(m)
        rep.count("infill_criteria")
        w = Candidates(repo, m.cls, K, "infill")
        env = {p: TOP for p in m.all_params}
        if m.kwarg:
            env[m.kwarg] = TOP
        env["pop"] = ("P", "exist", frozenset(["pop"]))
        v, end, fr = w.function(m, env, State())
        compares = any(isinstance(n, ast.Attribute) and n.attr == "eliminate_duplicates" for g in reach(repo, m, m.cls) for n in g.walk())
        for n, x, s in fr.returns:
            rep.count("handed_out")
            verdict(repo, rep, m, n or m.node, x, compares or m.cls is K.inf, f"{m.cls.name}.do returns candidates")


def reach(repo, m, c):
    out, todo = [], [m]
    while todo:
        g = todo.pop()
        if g in out or len(out) > 12:
            continue
        out.append(g)
        for n in g.walk():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == repo.self_name(g):
                t = c.lookup(n.func.attr)
                if t is not None:
                    todo.append(t)
    return out


def verdict(repo, rep, f, n, v, compare, text):
    if v[0] not in ("P", "A"):
        rep.count("undecided")
        return
    if v[1] == "raw":
        finding(rep, "unrepaired-candidates", f, n, f"{text} that have not been repaired, or were changed afterwards")
    elif v[1] == "rep" and compare:
        finding(rep, "not-compared", f, n, f"{text} that were not compared, after the repair, with the population and with the candidates collected before")
    elif v[1] == "?":
        rep.count("undecided")


def starts(repo, rep, K):
    seen = set()
    for c in sorted(K.init.family(), key=lambda c: c.id):
        m = c.lookup("do")
        if m is None or m in seen:
            continue
        seen.add(m)
        rep.count("initialisations")
        w = Candidates(repo, m.cls, K, "init")
        env = {p: TOP for p in m.all_params}
        v, end, fr = w.function(m, env, State(attrs={"sampling": ("P", "raw", frozenset())}))
        for n, x, s in fr.returns:
            rep.count("handed_out")
            verdict(repo, rep, m, n or m.node, x, True, f"{m.cls.name}.do returns a population with individuals")


def operators(repo, rep, K):
    op = repo.cls("Operator", required=False)
    m = op.methods.get("__call__") if op is not None else None
    if m is None:
        return
    rep.count("operators")
    w = Candidates(repo, op, K, "operator")
    env = {p: TOP for p in m.all_params}
    v, end, fr = w.function(m, env, State())
    for n, x, s in fr.returns:
        rep.count("handed_out")
        verdict(repo, rep, m, n or m.node, x, False, "an operator with a built-in repair returns individuals")


# ------------------------------------------------------------------ the algorithms
HOOKS = ("_initialize_infill", "_infill", "_next", "_advance", "_initialize_advance")


def algorithms(repo, rep, K):
    seen = set()
    for c in sorted(K.alg.family(), key=lambda c: c.id):
        init = c.lookup("__init__")
        acc = {o: accepts(repo, c, o) for o in ("repair", "eliminate_duplicates")}
        if not acc["repair"] and not acc["eliminate_duplicates"]:
            continue
        rep.count("algorithms")
        conf = {}
        for attr in ("mating", "initialization"):
            for o in ("repair", "eliminate_duplicates"):
                if acc[o]:
                    conf[attr, o] = configured(repo, rep, K, c, attr, o)
        stored(repo, rep, K, c, acc)
        if not acc["repair"]:
            continue
        for h in HOOKS:
            m = c.lookup(h)
            if m is None or m.cls is K.alg:
                continue
            key = (m, tuple(sorted((k, v) for k, v in conf.items())))
            w = Candidates(repo, c, K, "algorithm")
            rep.count("algorithm_hooks")
            env = {p: TOP for p in m.all_params}
            if "infills" in env:
                env["infills"] = ("P", "exist", frozenset())
            try:
                v, end, fr = w.function(m, env, State())
            except RuntimeError:
                rep.count("hooks_too_large")
                continue
            outs = []
            if h in ("_initialize_infill", "_infill"):
                outs += [(n or m.node, m, x) for n, x, s in fr.returns if not (n is not None and (n.value is None or isinstance(n.value, ast.Constant)))]
            if h == "_next":
                outs += [(n, m, x) for n, x in fr.yields]
            outs += [(n, f, x) for what, n, f, x in w.events if what == "evaluated"]
            for n, f, x in outs:
                rep.count("handed_out")
                verdict(repo, rep, f, n, x, False, f"{c.name} hands out candidates")
            if acc["eliminate_duplicates"]:
                for what, n, f, x in w.events:
                    if what == "current":
                        rep.count("matings")
                        if "part" in x[2] and "cur" not in x[2]:
                            finding(rep, "compared-with-a-part", f, n, f"{c.name} compares its candidates with a part of its population only")


def accepts(repo, c, o, ctor=None, depth=0):
    """the constructor of the class lets the user set the option"""
    ctor = ctor or c.lookup("__init__")
    if ctor is None or depth > 8:
        return False
    if o in ctor.all_params:
        return True
    if not ctor.kwarg:
        return False
    for n in ctor.walk():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == ctor.kwarg for k in n.keywords):
            if any(k.arg == o for k in n.keywords):
                return False
            enc = repo.enclosing_class(ctor)
            sup = isinstance(n.func.value, ast.Call)
            t = c.lookup("__init__", after=enc) if sup and enc is not None else next((x for x in repo.resolve_call(n, ctor, fallback=False) if isinstance(x, Func)), None)
            if t is None:
                return False
            m, *_ = bind_args(n, t)
            if o in m and not _.__class__ is None and o in [k for k, v in m.items() if v is not None]:
                return False
            return accepts(repo, c, o, t, depth + 1)
    return False


def chain(repo, c):
    """constructors of the class from the most derived one upwards, with the call that leads to the next"""
    out, f = [], c.lookup("__init__")
    while f is not None and f not in [x for x, _ in out] and len(out) < 10:
        enc = repo.enclosing_class(f)
        nxt = call = None
        for n in f.walk():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
                call = n
                nxt = c.lookup("__init__", after=enc)
        out.append((f, call))
        f = nxt
    return out


def leaves(repo, c, k, expr, depth=0):
    """[(constructor, expression)] the value can come from; expression None: handed in by the user"""
    ch = chain(repo, c)
    f, _ = ch[k]
    if depth > 8 or expr is None:
        return []
    if isinstance(expr, ast.IfExp):
        return leaves(repo, c, k, expr.body, depth + 1) + leaves(repo, c, k, expr.orelse, depth + 1)
    if isinstance(expr, ast.BoolOp):
        return [x for v in expr.values for x in leaves(repo, c, k, v, depth + 1)]
    if isinstance(expr, ast.Name):
        out = []
        for v in repo.local_assigns(f).get(expr.id, []):
            if v is not None and not (isinstance(v, ast.Name) and v.id == expr.id):
                out += leaves(repo, c, k, v, depth + 1)
        if expr.id in f.all_params:
            if k == 0:
                out.append((f, None))
                d = f.defaults.get(expr.id)
                if d is not None and not isinstance(d, ast.Constant):
                    out.append((f, d))
            else:
                g, call = ch[k - 1]
                m, star, dstar, extra, xkw = bind_args(call, f)
                if m.get(expr.id) is not None:
                    out += leaves(repo, c, k - 1, m[expr.id], depth + 1)
                else:
                    d = f.defaults.get(expr.id)
                    if d is not None and not isinstance(d, ast.Constant):
                        out.append((f, d))
                    out.append((f, None))
        return out
    return [(f, expr)]


def configured(repo, rep, K, c, attr, o):
    """every criterion the constructors build themselves gets the option"""
    ch = chain(repo, c)
    ok = True
    for k, (f, _) in enumerate(ch):
        vs = [v for g, v in repo.attr_assigns(f.cls).get(attr, []) if g is f] if f.cls is not None else []
        if not vs:
            continue
        for v in vs:
            for g, x in leaves(repo, c, k, v):
                if not isinstance(x, ast.Call):
                    continue
                r = repo.resolve(x.func, g.module, g)
                if not (isinstance(r, Class) and (K.inf in r.mro or K.init in r.mro)):
                    continue
                if not accepts(repo, r, o):
                    if o == "repair":
                        rep.count("criteria_without_option")
                    continue
                rep.count("options_followed")
                if not passes(repo, c, ch, g, x, r, o):
                    ok = False
                    if o == "eliminate_duplicates" and attr == "initialization" and not accepts(repo, c, o):
                        continue
                    if not later(repo, c, ch, attr, o):
                        rep.add("option-dropped", f"{g.id}:{attr}.{o}", f"{g.module.rel}:{x.lineno} {g.qual}", f"{c.name} accepts {o} but builds its {attr} ({unparse(x, 60)}) without it")
        break
    return ok


def later(repo, c, ch, attr, o):
    """self.mating.repair = ... in a constructor"""
    for f, _ in ch:
        for n in f.walk():
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and t.attr == o and not (isinstance(t.value, ast.Name) and t.value.id == f.selfname):
                        return True
    return False


def passes(repo, c, ch, g, call, r, o):
    init = r.lookup("__init__")
    m, star, dstar, extra, xkw = bind_args(call, init)
    v = m.get(o)
    if v is None and xkw:
        v = dict(xkw).get(o) if not isinstance(xkw, dict) else xkw.get(o)
    if v is None:
        v = next((k.value for k in call.keywords if k.arg == o), None)
    if v is not None:
        return any(mentions(repo, n, g, o) for n in ast.walk(v))
    if any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == g.kwarg for k in call.keywords):
        return o not in g.all_params
    return any(k.arg is None for k in call.keywords) and not any(isinstance(k.value, ast.Name) and k.value.id == g.kwarg for k in call.keywords if k.arg is None)


def mentions(repo, n, g, o, depth=0):
    if isinstance(n, ast.Name) and n.id == o or isinstance(n, ast.Attribute) and n.attr == o or isinstance(n, ast.Constant) and n.value == o:
        return True
    if isinstance(n, ast.Name) and depth < 4:
        return any(mentions(repo, x, g, o, depth + 1) for v in repo.local_assigns(g).get(n.id, []) if v is not None for x in ast.walk(v))
    return False


def stored(repo, rep, K, c, acc):
    """self.repair / self.eliminate_duplicates is what was handed in"""
    for o in ("repair", "eliminate_duplicates"):
        ch = chain(repo, c)
        for f, _ in ch:
            if o in f.all_params and f.cls is not None:
                vs = [v for g, v in repo.attr_assigns(f.cls).get(o, []) if g is f]
                if not vs:
                    continue
                rep.count("options_followed")
                if not any(mentions(repo, n, f, o) for v in vs if v is not None for n in ast.walk(v)):
                    rep.add("option-dropped", f"{f.id}:{o}", f.loc, f"{o} handed to {f.cls.name} is not kept")
                elif not arrives(repo, ch, ch.index(next(x for x in ch if x[0] is f)), o):
                    rep.add("option-dropped", f"{ch[0][0].id}:{o}", ch[0][0].loc, f"{o} handed to {c.name} does not reach {f.cls.name}")
                break
    for k in (K.inf, K.init):
        f = k.methods.get("__init__")
        for o in ("repair", "eliminate_duplicates"):
            if f is not None and o in f.all_params:
                vs = [v for g, v in repo.attr_assigns(k).get(o, []) if g is f]
                if vs and not any(mentions(repo, n, f, o) for v in vs if v is not None for n in ast.walk(v)):
                    rep.add("option-dropped", f"{f.id}:{o}", f.loc, f"{o} handed to {k.name} is not kept")


def arrives(repo, ch, k, o):
    """the value handed to the most derived constructor is what the k-th one gets"""
    for j in range(k, 0, -1):
        g, call = ch[j - 1]
        m, star, dstar, extra, xkw = bind_args(call, ch[j][0])
        v = m.get(o)
        if v is None:
            v = next((x.value for x in call.keywords if x.arg == o), None)
        if v is None:
            if o in g.all_params or not any(x.arg is None for x in call.keywords):
                return o in g.all_params and any(isinstance(n, ast.Name) and n.id == o and isinstance(n.ctx, ast.Load) for n in g.walk()) or o not in g.all_params and bool(call.args and any(isinstance(x, ast.Starred) for x in call.args))
            continue
        if o in g.all_params and not any(mentions(repo, n, g, o) for n in ast.walk(v)):
            return any(isinstance(n, ast.Name) and n.id == o and isinstance(n.ctx, ast.Load) for n in g.walk())
        if o not in g.all_params:
            return True
    return True


# ------------------------------------------------------------------ repairs
def repairs(repo, rep, K):
    seen = set()
    for c in sorted(K.repair.family(), key=lambda c: c.id):
        rep.count("repairs")
        for nm in ("do", "__call__"):
            m = c.lookup(nm)
            if m is None or m in seen or m.cls is None or K.repair not in m.cls.mro:
                continue
            seen.add(m)
            w = Candidates(repo, c, K, "repair")
            env = {p: TOP for p in m.all_params}
            ps = [p for p in m.all_params if p in ("pop", "elem", "population")] or m.all_params[2:3]
            for p in ps:
                env[p] = ("P", "raw", frozenset())
            w.opens = lambda t, e, fr: t.name != "_do"
            v, end, fr = w.function(m, env, State())
            for n, x, s in fr.returns:
                rep.count("handed_out")
                if x[0] == "P" and x[1] == "raw" or n is None and x == TOP:
                    finding(rep, "repair-result-dropped", m, n or m.node, f"{m.qual} does not store the repaired designs in the individuals it returns")
                for p in ps:
                    if s.env.get(p, TOP)[0] == "P" and s.env[p][1] == "raw":
                        finding(rep, "repair-result-dropped", m, n or m.node, f"{m.qual} leaves the individuals it was given unrepaired", "inplace")
        m = c.methods.get("_do")
        if m is not None and not any(isinstance(n, ast.Raise) for n in m.walk()) and "abstractmethod" not in m.decorator_names():
            from sa.sympath import paths
            try:
                ps = paths(repo, m, c)
            except RuntimeError:
                continue
            if any(p.how == "return" and (p.ret is None or isinstance(p.ret, ast.Constant) and p.ret.value is None) for p in ps):
                finding(rep, "repair-result-dropped", m, m.node, f"a path of {m.qual} returns nothing")


# ------------------------------------------------------------------ eliminations
def eliminations(repo, rep, K):
    for c in sorted(K.dup.family(), key=lambda c: c.id):
        rep.count("eliminations")
        m = c.methods.get("do")
        if m is not None and c is K.dup:
            every_argument(repo, rep, c, m)
        for nm, m in sorted(c.methods.items()):
            pairs(repo, rep, c, m)
            whole(repo, rep, c, m)
            triangle(repo, rep, c, m)


def every_argument(repo, rep, c, m):
    fs = reach(repo, m, c)
    loops = [(g, n) for g in fs for n in g.walk() if isinstance(n, (ast.For, ast.ListComp, ast.GeneratorExp)) and any(isinstance(x, ast.Name) and x.id == (m.vararg or "args") for x in ast.walk(n.iter if isinstance(n, ast.For) else n.generators[0].iter))]
    if not loops:
        finding(rep, "elimination-incomplete", m, m.node, "the other collections are not gone through", "others")
    for g, n in loops:
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Subscript) or not isinstance(n, ast.For) and isinstance(n.generators[0].iter, ast.Subscript):
            finding(rep, "elimination-incomplete", g, n, "only some of the other collections are compared", "slice")
        if not isinstance(n, ast.For) or not isinstance(n.target, ast.Name):
            continue
        rep.count("comparison_loops")
        for how, s, conds, done in ways(n.body):
            names = {x.id for x in conds}
            if done and n.target.id in {q.id for d in done for q in ast.walk(d) if isinstance(q, ast.Name)}:
                if how not in ("break", "return"):
                    continue
            others = names - {n.target.id}
            if how in ("break", "return") and not others:
                finding(rep, "elimination-incomplete", g, s or n, "the comparison stops before all other collections were compared", "break")
            elif how not in ("break", "return") and not names:
                finding(rep, "elimination-incomplete", g, s or n, "one of the other collections is not compared although it has individuals", "skipped")
    d = m.defaults.get("to_itself")
    if isinstance(d, ast.Constant) and not d.value:
        finding(rep, "elimination-incomplete", m, m.node, "the candidates are not compared with each other by default", "itself")
    # the marked ones are taken out
    for g in fs:
        for n in g.walk():
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Call) and isinstance(n.slice.func, ast.Attribute) and n.slice.func.attr == "_do":
                finding(rep, "elimination-incomplete", g, n, "the duplicates are kept and the others removed", "negated")


def ways(body):
    """[(how, statement, [names known to be empty], [comparisons made])] of the ways through a loop body"""
    out = []

    def go(stmts, conds, done, k):
        if not stmts:
            return k(conds, done)
        s, rest = stmts[0], stmts[1:]
        if isinstance(s, ast.If):
            d = done + compared(s.test)
            go(s.body, conds + emptied(s.test, True), d, lambda c, e: go(rest, c, e, k))
            go(s.orelse, conds + emptied(s.test, False), d, lambda c, e: go(rest, c, e, k))
        elif isinstance(s, ast.Continue):
            out.append(("continue", s, conds, done))
        elif isinstance(s, ast.Break):
            out.append(("break", s, conds, done))
        elif isinstance(s, ast.Return):
            out.append(("return", s, conds, done))
        elif isinstance(s, ast.Raise):
            pass
        elif isinstance(s, (ast.With, ast.Try)):
            go(list(s.body) + list(rest), conds, done, k)
        else:
            go(rest, conds, done + compared(s), k)

    go(list(body), [], [], lambda c, d: out.append(("end", None, c, d)))
    return out


def compared(s):
    return [n for n in ast.walk(s) if isinstance(n, ast.Call) and len(n.args) >= 2 and not (isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "range", "zip"))]


def emptied(t, taken):
    """names of collections that are empty if the condition has this outcome"""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, taken = t.operand, not taken
    if isinstance(t, ast.BoolOp):
        if taken == isinstance(t.op, ast.And):
            return [x for v in t.values for x in emptied(v, taken)]
        parts = [emptied(v, taken) for v in t.values]
        both = set.intersection(*[{x.id for x in p} for p in parts])
        return [x for x in parts[0] if x.id in both] or ([x for p in parts for x in p][:1] if all(parts) and False else [])
    x, empty = t, not taken
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (0, 1):
        pos = {(ast.Gt, 0): True, (ast.NotEq, 0): True, (ast.GtE, 1): True, (ast.Eq, 0): False, (ast.Lt, 1): False, (ast.LtE, 0): False}.get((type(t.ops[0]), t.comparators[0].value))
        if pos is None:
            return []
        x, empty = t.left, taken != pos
    if not empty:
        return []
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and x.args:
        x = x.args[0]
    elif x is t:
        return []
    return [x] if isinstance(x, ast.Name) else []


def whole(repo, rep, c, m):
    """no fixed part of a collection is left out, the distances are not overwritten, any match counts"""
    ps = [p for p in m.all_params if p not in ("self", m.selfname)]
    for n in m.walk():
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice):
            root = n.value
            if isinstance(root, ast.Call) and isinstance(root.func, ast.Attribute) and root.func.attr == "func" and root.args:
                root = root.args[0]
            if isinstance(root, ast.Name) and root.id in ps and any(x is not None and isinstance(x, (ast.Constant, ast.UnaryOp)) and not (isinstance(x, ast.Constant) and x.value in (0, None)) for x in (n.slice.lower, n.slice.upper)):
                finding(rep, "elimination-incomplete", m, n, f"{m.qual} looks at a part of its individuals only ({unparse(n, 40)})", "part")
        if isinstance(n, ast.Call) and any(isinstance(x, ast.Compare) and any(isinstance(y, ast.Attribute) and y.attr == "epsilon" for y in ast.walk(x)) for x in ([n.args[0]] if n.args else []) + ([n.func.value] if isinstance(n.func, ast.Attribute) else [])):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            x = n.args[0] if n.args and isinstance(n.args[0], ast.Compare) else n.func.value if isinstance(n.func, ast.Attribute) else None
            if nm == "all" and isinstance(x, ast.Compare) and not negated(m, x):
                finding(rep, "elimination-incomplete", m, n, f"{m.qual} requires an individual to be equal to all others", "all")
            ax = next((k.value for k in n.keywords if k.arg == "axis"), None)
            if nm == "any" and isinstance(ax, ast.Constant) and ax.value == 0 and not any(isinstance(y, ast.Attribute) and y.attr == "T" for y in ast.walk(n)):
                finding(rep, "elimination-incomplete", m, n, f"{m.qual} marks the others instead of the candidates", "axis")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == "isnan" or isinstance(x.func, ast.Name) and x.func.id == "isnan") for x in ast.walk(n.targets[0].slice)):
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)) and not isinstance(n.value.value, bool):
                finding(rep, "elimination-incomplete", m, n, f"{m.qual} takes individuals without a distance for duplicates", "nan")
    # what has been seen is remembered
    sets = {t.id for n in m.walk() if isinstance(n, ast.Assign) and (isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "set" and not n.value.args or isinstance(n.value, ast.Dict) and not n.value.keys) for t in n.targets if isinstance(t, ast.Name)}
    for h in sets:
        member = [n for n in m.walk() if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == h]
        if not member:
            continue
        rep.count("hash_sets")
        for n in m.walk():
            if isinstance(n, ast.For) and any(x in list(ast.walk(n)) for x in member):
                def adds(b):
                    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("add", "update") and isinstance(x.func.value, ast.Name) and x.func.value.id == h or isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == h
                               or isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == h for s in b for x in ast.walk(s))
                if not adds(n.body):
                    finding(rep, "elimination-incomplete", m, n, f"{m.qual} does not compare the candidates with each other", "remembered")


def pairs(repo, rep, c, m):
    """nested loops over index ranges cover all pairs"""
    for n in m.walk():
        if not isinstance(n, ast.For):
            continue
        for k in n.body:
            if isinstance(k, ast.For) and is_range(n.iter) and is_range(k.iter) and isinstance(n.target, ast.Name) and isinstance(k.target, ast.Name):
                rep.count("pair_loops")
                o, i = n.iter.args, k.iter.args
                t = [unparse(x, 80) for x in i]
                bad = None
                if len(o) == 2 and not (isinstance(o[0], ast.Constant) and o[0].value == 0) and len(i) == 2:
                    bad = "the outer loop does not start with the first individual"
                if len(o) == 1 and not lenlike(o[0], m) and not (isinstance(o[0], ast.BinOp) and isinstance(o[0].op, ast.Sub) and isinstance(o[0].right, ast.Constant) and o[0].right.value == 1 and len(i) == 2 and t[0] != "0" and lenlike(o[0].left, m)):
                    bad = f"the outer loop runs over {unparse(o[0], 40)}"
                if len(i) == 2 and t[0].replace(" ", "") not in (n.target.id + "+1", "1+" + n.target.id, "0", "i+1"):
                    bad = f"the inner loop starts at {t[0]}"
                if not lenlike(i[-1], m):
                    bad = f"the inner loop ends at {t[-1]}"
                if bad:
                    finding(rep, "elimination-incomplete", m, n, f"{m.qual} does not compare all pairs: {bad}", "pairs")
                for y in ast.walk(k):
                    if isinstance(y, ast.Break):
                        if not any(isinstance(s, ast.If) and any(y is z for z in s.body) and any(isinstance(q, ast.Assign) for q in s.body) for s in ast.walk(k)):
                            finding(rep, "elimination-incomplete", m, y, f"{m.qual} stops comparing an individual before a duplicate was found", "break")
                    if isinstance(y, ast.Assign) and any(isinstance(q, ast.Subscript) and isinstance(q.slice, ast.Name) and q.slice.id == k.target.id and isinstance(q.value, ast.Name) and "dup" in q.value.id for q in y.targets):
                        rng = unparse(i[-1], 80)
                        if "other" in rng:
                            finding(rep, "elimination-incomplete", m, y, f"{m.qual} marks the position in the other collection", "index")


def is_range(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and 1 <= len(e.args) <= 2


def lenlike(e, m):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
        return True
    if isinstance(e, ast.Name):
        return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and not isinstance(n.value, ast.BinOp) for n in m.walk())
    if isinstance(e, ast.Subscript):
        return "shape" in unparse(e, 60)
    return False


def triangle(repo, rep, c, m):
    """comparing a collection with itself: exactly one of each pair stays"""
    for n in m.walk():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            nm = n.func.attr
            if nm in ("triu_indices", "tril_indices", "triu_indices_from", "tril_indices_from") and blanked(m, n):
                rep.count("self_comparisons")
                k = next((x.value for x in n.keywords if x.arg == "k"), n.args[1] if len(n.args) > 1 else None)
                if k is not None and not (isinstance(k, ast.Constant) and k.value == 0):
                    finding(rep, "elimination-incomplete", m, n, f"{m.qual} compares every individual with itself or leaves out pairs ({unparse(n, 50)})", "triangle")
            if nm in ("diag_indices", "diag_indices_from", "eye", "identity") and blanked(m, n):
                finding(rep, "elimination-incomplete", m, n, f"{m.qual} removes both of two equal individuals", "triangle")
            if nm == "fill_diagonal" and any("epsilon" in unparse(x.node if hasattr(x, "node") else x, 4000) for x in [m.node] + [q.node for q in c.methods.values()]):
                finding(rep, "elimination-incomplete", m, n, f"{m.qual} removes both of two equal individuals", "triangle")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and any(isinstance(x, ast.Attribute) and x.attr == "epsilon" for x in ast.walk(n)):
            rep.count("thresholds")
            l = any(isinstance(x, ast.Attribute) and x.attr == "epsilon" for x in ast.walk(n.left))
            o = type(n.ops[0])
            inverted(repo, rep, m, n.comparators[0] if l else n.left)
            if (not l and o in (ast.Gt, ast.GtE) or l and o in (ast.Lt, ast.LtE)) and not negated(m, n):
                finding(rep, "elimination-incomplete", m, n, f"{m.qual} takes distant individuals for duplicates", "threshold")


def inverted(repo, rep, m, e):
    """the distance that stands for 'equal' is the smaller one"""
    vs = [e] + ([v for v in repo.local_assigns(m).get(e.id, []) if v is not None] if isinstance(e, ast.Name) else [])
    for v in vs:
        for t in (repo.resolve_call(v, m, fallback=False) if isinstance(v, ast.Call) else ()):
            if not isinstance(t, Func) or not t.params:
                continue
            q = t.params[0]
            for x in t.walk():
                yes = no = None
                if isinstance(x, (ast.IfExp, ast.If)):
                    tst, neg = x.test, False
                    if isinstance(tst, ast.UnaryOp) and isinstance(tst.op, ast.Not):
                        tst, neg = tst.operand, True
                    if not (isinstance(tst, ast.Name) and tst.id == q):
                        continue
                    if isinstance(x, ast.IfExp):
                        yes, no = x.body, x.orelse
                    else:
                        i = [k for k, b in enumerate(body_of(t, x)) if b is x]
                        rest = x.orelse or (body_of(t, x)[i[0] + 1:] if i else [])
                        yes, no = (next((b.value for b in bs if isinstance(b, ast.Return)), None) for bs in (x.body, rest))
                    if neg:
                        yes, no = no, yes
                elif isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ("float", "int") and x.value.args and isinstance(x.value.args[0], ast.Name) and x.value.args[0].id == q \
                        and any(isinstance(y, ast.If) and any(z is x for z in y.body) and any(isinstance(w, ast.Name) and w.id in ("bool", "bool_") or isinstance(w, ast.Attribute) and w.attr == "bool_" for w in ast.walk(y.test)) for y in t.walk()):
                    yes, no = ast.Constant(1.0), ast.Constant(0.0)
                if isinstance(yes, ast.Constant) and isinstance(no, ast.Constant) and isinstance(yes.value, (int, float)) and isinstance(no.value, (int, float)):
                    rep.count("equalities_converted")
                    if yes.value > no.value:
                        finding(rep, "elimination-incomplete", m, x, f"{t.qual} turns 'equal' into the larger distance: {m.qual} removes the individuals that differ", "inverted")


def body_of(t, x):
    for n in t.walk():
        for b in (getattr(n, "body", None), getattr(n, "orelse", None)):
            if isinstance(b, list) and any(y is x for y in b):
                return b
    return t.body


def blanked(m, call):
    """the pairs are taken out of the comparison: D[np.triu_indices(n)] = np.inf"""
    names = {t.id for s in m.walk() if isinstance(s, ast.Assign) and s.value is call for t in s.targets if isinstance(t, ast.Name)}
    for s in m.walk():
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript):
            sl = s.targets[0].slice
            if sl is call or isinstance(sl, ast.Name) and sl.id in names:
                return not (isinstance(s.value, ast.Constant) and s.value.value is True)
    return False


def negated(m, n):
    for x in m.walk():
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.Invert)) and any(y is n for y in ast.walk(x)):
            return True
        if isinstance(x, ast.If) and any(y is n for y in ast.walk(x.test)) and all(isinstance(b, ast.Continue) for b in x.body):
            return True
    return False


# ------------------------------------------------------------------ from creation to evaluation
def handover(repo, rep, K):
    """infill() and next() of the base class do not touch the designs"""
    for c in K.alg.family():
        for nm in ("infill", "next", "ask"):
            m = c.methods.get(nm)
            if m is None:
                continue
            rep.count("handovers")
            todo, seen = [m], []
            while todo:
                g = todo.pop()
                if g in seen or len(seen) > 10:
                    continue
                seen.append(g)
                for n in g.walk():
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        if n.func.attr == "set" and (n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == "X" or any(k.arg == "X" for k in n.keywords)):
                            finding(rep, "candidates-changed", g, n, f"{unparse(n, 60)} changes the designs of candidates on their way to the evaluation")
                        if isinstance(n.func.value, ast.Name) and n.func.value.id == g.selfname and n.func.attr not in HOOKS + ("advance", "_initialize"):
                            t = c.lookup(n.func.attr)
                            if t is not None:
                                todo.append(t)
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and t.attr == "X" or isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "X":
                                finding(rep, "candidates-changed", g, n, f"{unparse(n, 60)} changes the designs of candidates on their way to the evaluation")


MINI = {
    "pymoo/core.py": """
import numpy as np

class Individual:
    def __init__(self, X=None): self.X = X

class Population(np.ndarray):
    @classmethod
    def merge(cls, a, b): return a
    @classmethod
    def create(cls, *args): return cls()
    @classmethod
    def new(cls, *args, **kwargs): return cls()
    def get(self, *args): return 1
    def set(self, *args, **kwargs): return self

class Operator:
    def __init__(self, vtype=None, repair=None):
        self.vtype = vtype
        self.repair = repair
    def do(self, problem, elem, **kwargs): return self._do(problem, elem, **kwargs)
    def _do(self, problem, elem, **kwargs): pass
    def __call__(self, problem, elem, **kwargs):
        out = self.do(problem, elem, **kwargs)
        if self.repair is not None:
            self.repair.do(problem, out)
        return out

class Repair(Operator):
    def do(self, problem, pop, **kwargs):
        X = np.array([ind.X for ind in pop])
        Xp = self._do(problem, X, **kwargs)
        pop.set("X", Xp)
        return pop
    def _do(self, problem, X, **kwargs): return X

class NoRepair(Repair): pass
class Mutation(Operator): pass
class Crossover(Operator): pass
class Sampling(Operator): pass

class DuplicateElimination:
    def __init__(self, epsilon=1e-16): self.epsilon = epsilon
    def do(self, pop, *args, to_itself=True):
        if to_itself:
            pop = pop[~self._do(pop, None)]
        for arg in args:
            if len(pop) == 0:
                break
            if len(arg) == 0:
                continue
            pop = pop[~self._do(pop, arg)]
        return pop
    def _do(self, pop, other):
        D = self.func(pop)
        if other is None:
            D[np.triu_indices(len(pop))] = np.inf
        return np.any(D <= self.epsilon, axis=1)

class NoDuplicateElimination(DuplicateElimination): pass

class InfillCriterion:
    def __init__(self, repair=None, eliminate_duplicates=None):
        self.repair = repair if repair is not None else NoRepair()
        self.eliminate_duplicates = eliminate_duplicates if eliminate_duplicates is not None else NoDuplicateElimination()
    def do(self, problem, pop, n_offsprings, **kwargs):
        off = Population.create()
        while len(off) < n_offsprings:
            _off = self._do(problem, pop, n_offsprings, **kwargs)
            _off = self.repair(problem, _off)
            _off = self.eliminate_duplicates.do(_off, pop, off)
            off = Population.merge(off, _off)
        return off
    def _do(self, problem, pop, n_offsprings, **kwargs): pass

class Mating(InfillCriterion): pass

class Initialization:
    def __init__(self, sampling, repair=None, eliminate_duplicates=None):
        self.sampling = sampling
        self.repair = repair
        self.eliminate_duplicates = eliminate_duplicates
    def do(self, problem, n):
        pop = self.sampling(problem, n)
        todo = [k for k in range(len(pop)) if len(pop[k].evaluated) == 0]
        if len(todo) > 0:
            pop[todo] = self.repair(problem, pop[todo])
        return self.eliminate_duplicates.do(pop)
""",
    "pymoo/algorithm.py": """
from pymoo.core import Initialization, Mating, Population, Mutation

class Algorithm:
    def infill(self):
        infills = self._infill()
        infills.set("n_gen", self.n_gen)
        return infills
    def _infill(self): pass
    def _advance(self, infills=None): pass

class GA(Algorithm):
    def __init__(self, sampling=None, repair=None, eliminate_duplicates=None, **kwargs):
        self.repair = repair
        self.eliminate_duplicates = eliminate_duplicates
        self.initialization = Initialization(sampling, repair=self.repair, eliminate_duplicates=self.eliminate_duplicates)
        self.mating = Mating(repair=self.repair, eliminate_duplicates=self.eliminate_duplicates)
    def _initialize_infill(self):
        return self.initialization.do(self.problem, self.pop_size)
    def _infill(self):
        return self.mating.do(self.problem, self.pop, self.n_offsprings)

class Swarm(Algorithm):
    def __init__(self, sampling=None, repair=None):
        self.repair = repair
        self.initialization = Initialization(sampling, repair=repair)
        self.mutation = Mutation()
    def _initialize_infill(self):
        return self.initialization.do(self.problem, self.pop_size)
    def _infill(self):
        X = self.pop.get("X")
        off = Population.new(X=X + 0.5)
        off = self.mutation(self.problem, off)
        off = self.repair(self.problem, off)
        return off
""",
}


def changed(path, *reps):
    files = dict(MINI)
    for o, n in reps:
        assert o in files[path], o
        files[path] = files[path].replace(o, n, 1)
    return files


REPAIR = "            _off = self.repair(problem, _off)\n"
COMPARE = "            _off = self.eliminate_duplicates.do(_off, pop, off)\n"
STORE = '        pop.set("X", Xp)\n'
DO = "pymoo.core:InfillCriterion.do"
PART = "pymoo.core:DuplicateElimination"

SELFTESTS = [
    ("clean", MINI, []),
    ("helpers", changed("pymoo/core.py", (COMPARE, "            _off = self._clean(_off, pop, off)\n"), ("class Mating", "    def _clean(self, cand, *others):\n        return self.eliminate_duplicates.do(cand, *others)\n\nclass Mating"),
                        ("_off = self._do(problem, pop, n_offsprings, **kwargs)\n" + REPAIR, "_off = self._make(problem, pop, n_offsprings)\n"), ("class Mating", "    def _make(self, problem, pop, n):\n        return self.repair(problem, self._do(problem, pop, n))\n\nclass Mating")), []),
    ("one by one", changed("pymoo/core.py", (STORE, "        for k, ind in enumerate(pop):\n            ind.X = Xp[k]\n")), []),
    ("order", changed("pymoo/core.py", (REPAIR + COMPARE, COMPARE + REPAIR)), [("not-compared", DO)]),
    ("collected", changed("pymoo/core.py", ("do(_off, pop, off)", "do(_off, pop)")), [("not-compared", DO)]),
    ("part", changed("pymoo/core.py", ("do(_off, pop, off)", "do(_off, pop[:5], off)")), [("not-compared", DO)]),
    ("first round", changed("pymoo/core.py", (REPAIR, "            if len(off) == 0:\n    " + REPAIR)), [("unrepaired-candidates", DO)]),
    ("lost", changed("pymoo/core.py", (STORE, "        if len(pop) > 1:\n    " + STORE)), [("repair-result-dropped", "pymoo.core:Repair.do"), ("repair-result-dropped", "pymoo.core:Repair.do:inplace")]),
    ("mutated later", changed("pymoo/algorithm.py", ("        off = self.repair(self.problem, off)\n        return off", "        off = self.repair(self.problem, off)\n        off[0].X = self.opt[0].X + 1\n        return off")), [("unrepaired-candidates", "pymoo.algorithm:Swarm._infill")]),
    ("operator", changed("pymoo/core.py", ("self.repair.do(problem, out)", "pass")), [("unrepaired-candidates", "pymoo.core:Operator.__call__")]),
    ("dropped", changed("pymoo/algorithm.py", ("Mating(repair=self.repair, eliminate", "Mating(eliminate")), [("option-dropped", "pymoo.algorithm:GA.__init__:mating.repair")]),
    ("forgotten", changed("pymoo/algorithm.py", ("self.mating.do(self.problem, self.pop, self", "self.mating.do(self.problem, self.pop[:3], self")), [("compared-with-a-part", "pymoo.algorithm:GA._infill")]),
    ("others", changed("pymoo/core.py", ("if len(arg) == 0:", "if len(arg) == 1:")), [("elimination-incomplete", PART + ".do:skipped")]),
    ("stop", changed("pymoo/core.py", ("            if len(arg) == 0:\n                continue", "            if len(arg) == 0:\n                break")), [("elimination-incomplete", PART + ".do:break")]),
    ("triangle", changed("pymoo/core.py", ("triu_indices(len(pop))", "triu_indices(len(pop), 1)")), [("elimination-incomplete", PART + "._do:triangle")]),
    ("threshold", changed("pymoo/core.py", ("D <= self", "D > self")), [("elimination-incomplete", PART + "._do:threshold")]),
    ("handover", changed("pymoo/algorithm.py", ('infills.set("n_gen", self.n_gen)', 'infills.set("X", infills.get("X") * 2)')), [("candidates-changed", "pymoo.algorithm:Algorithm.infill")]),
]
