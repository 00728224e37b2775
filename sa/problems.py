"""Symbolic construction and evaluation of the problems of the library."""
import ast
from .model import Func, Class, Ext, Var, unparse
from .shape import Numpy, V, NONE, UNK, Lin, A, N, L, num, arr, seq, taint, batch, has_batch, batchy, Stop, GiveUp, parts

DIMS = {"n_var": "n_var", "n_obj": "n_obj", "n_ieq_constr": "n_ieq_constr", "n_eq_constr": "n_eq_constr"}
DECLARED = {"F": "n_obj", "G": "n_ieq_constr", "H": "n_eq_constr"}
PAIRWISE = {"calc_perpendicular_distance", "calc_distance_to_weights"}
MAXRUNS = 48


class Run(Numpy):
    def __init__(self, repo, base, decisions=()):
        super().__init__(repo, decisions)
        self.base = base
        self.calls = []

    # the constructor of all problems is modelled: what it declares
    def hook_call(self, f, slf, args, kws, node):
        if f.cls is not None and f.cls.name == "Meta" and f.name == "__init__" and slf is not None and slf.k == "obj" and (args or "object" in kws):
            p = args[0] if args else kws["object"]
            d = self.st.heap.d[slf.obj[0]]
            if p.k == "obj":
                for k in ("n_var", "n_obj", "n_ieq_constr", "n_eq_constr", "xl", "xu"):
                    d[k] = self.getattr(p, k, node)
                d["elementwise"] = V("num")
                d["__object__"] = d["__super__"] = p
            return NONE
        if f.name == "do" and f.cls is not None and slf is not None and slf.k == "obj" and any(getattr(b, "name", "") == "ReferenceDirectionFactory" for b in f.cls.mro):
            n = self.st.heap.d.get(slf.obj[0], {}).get("n_dim")
            return V("arr", shape=(A(self.new("refs")), lin(n)))
        if f.name == "do" and f.cls is not None and f.cls.name == "NonDominatedSorting" and getattr(kws.get("only_non_dominated_front"), "const", None) is True:
            return V("arr", shape=(A(self.new("sub#front")),))
        if f.name == "load_function" and f.cls is None and args and args[0].k == "str" and args[0].const in PAIRWISE:
            return V("ext", obj="pymoo.pairwise")
        if f.cls is self.base and f.name == "evaluate" and slf is not None and slf.k == "obj" and getattr(self, "forkall", False):
            r = self.evaluated(slf, args, kws, node)
            if r is not None:
                return r
        if f.cls is self.base and f.name == "do" and slf is not None and slf.k == "obj":
            p = self.st.heap.d[slf.obj[0]].get("__object__")
            if p is not None and p.k == "obj":
                return self.inner(p, "do", args, kws, node)
        if f.cls is self.base and f.name == "__init__" and slf is not None and slf.k == "obj":
            env = self.bindcall(f, args, kws, first=slf)
            self.defaults(f, env)
            d = self.st.heap.d[slf.obj[0]]
            for p in f.params:
                d[p] = env.get(p, UNK)
            a = f.node.args
            kw = env.get(a.kwarg.arg) if a.kwarg is not None else None
            extra = self.st.heap.d.get(kw.obj[0], {}) if kw is not None and kw.k == "dict" else {}
            d["data"] = self.newobj(None, dict(extra), "dict")
            if "n_constr" in extra and d["n_ieq_constr"].const == 0:
                d["n_ieq_constr"] = extra["n_constr"]
            n = d.get("n_var", UNK)
            if d.get("vars", NONE).k not in ("none",):
                ln = self.lengthof(d["vars"]) if d["vars"].k != "dict" else Lin(k=len(self.st.heap.d.get(d["vars"].obj[0], {})))
                n = d["n_var"] = num(ln) if ln is not None else V("num")
                d["mixedvars"] = V("num", const=True)
            for b in ("xl", "xu"):
                v = d.get(b, NONE)
                d["given_" + b] = v
                if v.k == "num":
                    d[b] = V("arr", shape=(n.lin if n.k == "num" else None,))
                elif v.k == "list":
                    d[b] = self.toarray(v)
            for p in ("n_var", "n_obj", "n_ieq_constr", "n_eq_constr"):
                if d[p].k == "unk":
                    d[p] = num(A(f"{slf.obj[0]}.{p}"))
            d["declared"] = V("num", const=True)
            return NONE
        return None

    def external(self, path, args, kws, node):
        if path == "pymoo.pairwise":
            a, b = ([self.toarray(v) if v.k in ("list", "range") else v for v in args] + [UNK, UNK])[:2]
            return V("arr", shape=tuple(v.shape[0] if v.k == "arr" and v.shape is not None and len(v.shape) == 2 else None for v in (a, b)))
        return super().external(path, args, kws, node)

    def evaluated(self, slf, args, kws, node):
        """what an analytical front gets when it evaluates points of its own problem"""
        X = args[0] if args else kws.get("X")
        X = self.toarray(X) if X is not None and X.k in ("list", "range") else X
        if X is None or X.k != "arr" or X.shape is None or len(X.shape) not in (1, 2):
            return None
        names = kws.get("return_values_of")
        n = {k: lin(self.getattr(slf, c, node)) for k, c in DECLARED.items()}
        row = X.shape[:-1]
        d = kws.get("return_as_dictionary")
        if d is not None and d.const is True:
            return self.newobj(None, {k: V("arr", shape=row + (c,)) for k, c in n.items()}, "dict")
        if names is not None and names.k == "list" and names.items is not None and len(names.items) == 1 and names.items[0].const in n:
            return V("arr", shape=row + (n[names.items[0].const],))
        if names is None and all(n[k] is not None and not n[k].c and n[k].k == 0 for k in ("G", "H")):
            return V("arr", shape=row + (n["F"],))
        return None

    def inner(self, v, name, args, kws, node):
        """an evaluation of a wrapped problem"""
        x, rows, mix = taint(args + list(kws.values()))
        if name in ("_evaluate", "_evaluate_vectorized") and len(args) >= 2 and args[1].k == "dict":
            shape = args[0].shape if args[0].k == "arr" else None
            n = self.getattr(v, "n_obj", node).lin
            d = self.st.heap.d[args[1].obj[0]]
            rowdim = shape[:1] if shape is not None and len(shape) == 2 else () if shape is not None else None
            d["F"] = V("arr", shape=rowdim + (n,) if rowdim is not None else None, x=x, rows=rows, mix=mix)
            for k, c in (("G", "n_ieq_constr"), ("H", "n_eq_constr")):
                d[k] = V("arr", shape=rowdim + (self.getattr(v, c, node).lin,) if rowdim is not None else None, x=x, rows=rows, mix=mix)
            return NONE
        if name == "bounds":
            return seq([self.getattr(v, "xl", node), self.getattr(v, "xu", node)])
        if name == "do" and args and args[0].k == "arr" and args[0].shape is not None and len(args[0].shape) == 2:
            n = args[0].shape[0]
            o = {k: V("arr", shape=(n, self.getattr(v, c, node).lin), x=x, rows=rows, mix=mix) for k, c in (("F", "n_obj"), ("G", "n_ieq_constr"), ("H", "n_eq_constr"))}
            for k in ("F", "G", "H"):
                o["d" + k] = V("unk", x=x, rows=rows, mix=mix, may=True)
            return self.newobj(None, o, "dict")
        return None

    def param(self, f, p, default, ann, prefix):
        """the value of a parameter of a constructor that is given by the user"""
        text = unparse(ann) if ann is not None else ""
        nm = f"{p}"
        if "Problem" in text or p == "problem":
            return self.newobj("problem")
        if default is not None:
            v = self.in_module(default, f.module)
            if v.k == "num":
                if isinstance(v.const, bool):
                    return V("num", name=nm)
                if isinstance(v.const, int) and not isinstance(default, ast.UnaryOp):
                    self.st.facts.append(A(nm) - (1 if v.const >= 1 else 0))
                    return num(A(nm))
                if v.const == -1:
                    return v
                return V("num")
            if v.k == "str":
                return V("str", name=nm)
            if v.k == "none":
                if self.decide(f"{nm} is None"):
                    return NONE
                if p == "time":
                    return V("num")
                if "int" in text or "float" in text or p.startswith("n_") or (not text and len(p) == 1 and p in "klmn"):
                    self.st.facts.append(A(nm) - 1)
                    return num(A(nm))
                return V("unk", name=nm, shape=None)
            return v
        if "int" in text or "float" in text or p.startswith("n_"):
            self.st.facts.append(A(nm) - 1)
            return num(A(nm))
        if "bool" in text:
            return V("num", name=nm)
        return V("unk", name=nm)

    def optional(self, f, env, kws, names):
        if f.name != "__init__" or f.cls is self.base or f.cls is None or self.base not in f.cls.mro:
            return
        given = set(env) | set(kws)
        for p in f.params + f.kwonly:
            if p in names and p != "elementwise" and p not in given and p in f.defaults:
                env[p] = self.param(f, p, f.defaults[p], f.annotations.get(p), f.cls.name)

    def make(self, cls):
        slf = self.newobj(cls)
        self.slf = slf
        init = cls.lookup("__init__")
        if not isinstance(init, Func):
            return slf
        a = init.node.args
        env = {init.args[0]: slf}
        pos = a.posonlyargs + a.args
        dfl = {p.arg: d for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)) if d is not None}
        for p in pos[1:] + a.kwonlyargs:
            if init.cls is self.base:
                continue
            env[p.arg] = self.param(init, p.arg, dfl.get(p.arg), p.annotation, cls.name)
        if a.kwarg is not None and init.cls is not self.base:
            env[a.kwarg.arg] = self.newobj(None, {"**open": UNK}, "dict")
        if self.hook_call(init, slf, [], {}, init.node) is None:
            self.inline(init, env, init.node, cls)
        return slf

    def attr(self, name):
        return self.st.heap.d[self.slf.obj[0]].get(name)

    def evaluate(self, cls, m):
        d = self.st.heap.d[self.slf.obj[0]]
        n = d.get("n_var", UNK)
        ew = d.get("elementwise")
        self.single = ew is not None and ew.const is True
        if self.single:
            X = V("arr", shape=(n.lin if n.k == "num" else None,), x=True, isx=True)
        else:
            X = V("arr", shape=(A(N), n.lin if n.k == "num" else None), x=True, isx=True)
        self.st.facts.append(A(N) - 1)
        if n.k == "num" and n.lin is not None:
            self.st.facts.append(n.lin - 1)
        if d.get("mixedvars") is not None:
            X = V("unk", x=True)
        out = self.newobj(None, {}, "out")
        self.out = V("dict", obj=out.obj)
        args = [self.slf, X, self.out]
        env = dict(zip(m.args, args))
        for p in m.all_params:
            if p not in env and p not in (getattr(m.node.args.vararg, "arg", None), getattr(m.node.args.kwarg, "arg", None)):
                pass
        self.result = self.inline(m, env, m.node, cls)
        return {k: v for k, v in self.st.heap.d[self.out.obj[0]].items()}


    def front(self, cls, m):
        self.forkall = True
        env = {m.args[0]: self.slf}
        if "ref_dirs" in m.params:
            # reference directions have one column for each objective
            env["ref_dirs"] = NONE if self.decide("ref_dirs is None") else V("arr", shape=(A("dimR"), lin(self.attr("n_obj"))))
        return self.inline(m, env, m.node, cls)

    def evaluate_wrapper(self, cls, m):
        n = self.attr("n_var")
        X = V("arr", shape=(A(N), lin(n)), x=True, isx=True)
        self.st.facts.append(A(N) - 1)
        if lin(n) is not None:
            self.st.facts.append(lin(n) - 1)
        env = {m.args[0]: self.slf, m.args[1]: X}
        for p in m.args[2:]:
            env[p] = UNK
        r = self.inline(m, env, m.node, cls)
        return dict(self.st.heap.d[r.obj[0]]) if r.k in ("dict", "obj") and r.obj is not None else {"**open": UNK}


def lin(v):
    return v.lin if v is not None and v.k == "num" else None


def explore(repo, base, cls, then, limit=MAXRUNS):
    """all combinations of decisions on parameters; `then(run)` continues after the construction"""
    done, todo = [], [[]]
    gave = None
    while todo and len(done) < limit:
        d = todo.pop()
        r = Run(repo, base, d)
        r.dead = False
        try:
            r.frames = []
            r.make(cls)
            r.final = then(r)
        except Stop:
            r.dead = True
            r.final = None
        except GiveUp as e:
            gave = str(e)
            r.dead = True
            r.final = None
        except RecursionError:
            gave = "recursion"
            r.dead = True
            r.final = None
        done.append(r)
        for i in range(len(d), len(r.taken)):
            todo.append(r.taken[:i] + [not r.taken[i]])
    if todo:
        gave = "too many combinations"
    return done, gave
