"""Interprocedural alias and mutation analysis.

For every function a summary is computed: which parameters (and what is reachable from them, by attribute path) may be
modified, and what the returned value may share memory with. Values are abstracted by two sets of (root, path):
`own` - memory the value itself shares - and `elem` - objects that the elements of the container share.
Roots are parameters ("p", name) and module-level variables ("g", module.name). Fresh objects have no roots.
"""
import ast
import re
from .model import *

POP = re.compile(r"^(_?pop|_?off|offs|infills?|opt|optimum|archive|elites|swarm|survivors?|parents|merged|individuals|sols?|solutions|"
                 r"pbest|sbest|lbest|gbest|offsprings?|candidates|CA|DA|ca|da|particles|feas_pop|_?individuals|population|"
                 r"pool|trials?|targets?|donors?|evaluated_pop|initial|history_pop|old_pop|new_pop|cand)$")
IND = re.compile(r"^(ind|individual|sol|parent|indv|child|solution|x0|a_ind|b_ind|survivor|opt_ind|candidate|ind_?[abij]|elem)$")
ARRNAMES = re.compile(r"^(x|X|Xp|_X|_x|F|_F|G|H|CV|V|Y|Q|D|W|w|Z|z|f|g|pf|pset|front|ref_dirs|ref_points?|weights|lambdas?|points?|vals?|values|"
                      r"ideal|nadir|ideal_point|nadir_point|utopian_point|xl|xu|bounds|arr|array|matrix|M|F_sorted|obj|objs|extreme_points|mask|counts?|"
                      r"ideal_point|worst_of_front|worst_of_population|distances?|dist|d|Xl|Xu|sigma|mu|theta)$")
VIEW_ATTR = {"T", "flat", "real", "imag", "base"}
VIEW_METHODS = {"reshape", "ravel", "view", "transpose", "squeeze", "swapaxes", "diagonal"}
VIEW_FUNCS = {"asarray", "atleast_1d", "atleast_2d", "atleast_3d", "asanyarray", "ravel", "reshape", "squeeze", "transpose", "swapaxes",
              "moveaxis", "rollaxis", "broadcast_to", "expand_dims", "flip", "fliplr", "flipud", "rot90", "diagonal", "split", "array_split",
              "hsplit", "vsplit", "dsplit", "ascontiguousarray", "asfortranarray", "asfarray", "real", "imag", "broadcast_arrays", "require"}
SHALLOW = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed", "builtins.zip",
           "builtins.enumerate", "builtins.filter", "builtins.dict", "copy.copy", "builtins.iter", "itertools.chain"}
PICK = {"builtins.next", "builtins.min", "builtins.max"}
MUT_METHODS = {"sort", "fill", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "reverse", "put",
               "resize", "itemset", "partition", "discard", "appendleft", "popleft", "add", "difference_update", "intersection_update",
               "symmetric_difference_update", "setflags", "__setitem__", "__delitem__", "__iadd__", "__isub__", "__imul__", "__itruediv__",
               "__ifloordiv__", "__imod__", "__ipow__", "__iand__", "__ior__", "__ixor__", "byteswap"}
FRESH_METHODS = {"sum", "mean", "min", "max", "argmin", "argmax", "argsort", "astype", "dot", "all", "any", "std", "var", "cumsum", "prod",
                 "tolist", "flatten", "nonzero", "repeat", "round", "clip", "keys", "index", "count", "format", "join", "split", "item",
                 "conj", "ptp", "searchsorted", "take", "compress", "choose", "trace", "lower", "upper", "strip", "startswith", "endswith"}
EXT_MUT = {"numpy.copyto": [0], "numpy.put": [0], "numpy.place": [0], "numpy.putmask": [0], "numpy.fill_diagonal": [0], "numpy.put_along_axis": [0],
           "numpy.random.shuffle": [0], "random.shuffle": [0], "heapq.heappush": [0], "heapq.heappop": [0], "heapq.heapify": [0],
           "builtins.setattr": [0], "builtins.delattr": [0]}
UNARY = {"abs", "absolute", "negative", "exp", "log", "sqrt", "square", "floor", "ceil", "sign", "reciprocal", "logical_not", "rint", "trunc", "fabs"}
BINARY = {"add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum", "power", "mod", "fmin", "fmax", "floor_divide", "round",
          "around", "logical_and", "logical_or", "dot", "matmul", "arctan2"}
UFUNC_AT = re.compile(r"^numpy\.\w+\.at$")
MAXPATH = 2


class Val:
    __slots__ = ("own", "elem", "kind", "view")

    def __init__(self, own=frozenset(), elem=frozenset(), kind=None, view=False):
        self.own, self.elem, self.kind, self.view = frozenset(own), frozenset(elem), kind, view

    def join(self, o):
        if o is None:
            return self
        return Val(self.own | o.own, self.elem | o.elem, self.kind if self.kind == o.kind else (self.kind or o.kind), self.view or o.view)

    def key(self):
        return (self.own, self.elem, self.kind)

    def __repr__(self):
        return f"Val({set(self.own)},{set(self.elem)},{self.kind})"


FRESH = Val()


class Mut:
    __slots__ = ("root", "path", "what", "loc", "via", "node", "func", "vkind")

    def __init__(self, root, path, what, loc, via, node, func, vkind=None):
        self.root, self.path, self.what, self.loc, self.via, self.node, self.func, self.vkind = root, path, what, loc, via, node, func, vkind

    def key(self):
        return (self.root, self.path, self.what)


class Summary:
    def __init__(self):
        self.mut = {}       # key -> Mut
        self.ret_own = set()
        self.ret_elem = set()
        self.ret_kind = None

    def size(self):
        return (len(self.mut), len(self.ret_own), len(self.ret_elem), self.ret_kind)


class Effects:
    """summaries for all functions; `direct[f]` lists the mutations written in f itself (any root, fresh included)"""

    def __init__(self, repo):
        self.repo = repo
        self.sum = {}
        self.spec = {}
        self.cached = set()
        for f in repo.funcs.values():
            self.sum[(f, ())] = Summary()
            if any(d.split(".")[-1] in ("Cache", "cache", "lru_cache", "cached_property") for d in f.decorator_names()):
                self.cached.add(f)
        self.direct = {}
        self.calls = {}           # (f, spec) -> [(call node, target, {param: Val})]
        self.stores = {}          # (f, spec) -> [(receiver Val, attr, value Val, node)] for `receiver.attr = value`
        self.deps = {}
        n = 0
        queue = sorted(self.sum, key=lambda k: k[0].id, reverse=True)
        inq = set(queue)
        while queue:
            k = queue.pop()
            inq.discard(k)
            n += 1
            if n > 60000:
                raise RuntimeError("effect analysis does not converge")
            before = self.sum[k].size()
            Interp(self, k[0], dict(k[1])).run()
            if self.sum[k].size() != before:
                for d in self.deps.get(k, ()):
                    if d not in inq:
                        inq.add(d)
                        queue.append(d)
        self.iterations = n

    def summary(self, f, spec, user):
        k = (f, spec)
        if k not in self.sum:
            self.sum[k] = Summary()
            self.deps.setdefault(k, set()).add(user)
            Interp(self, f, dict(spec)).run()
        self.deps.setdefault(k, set()).add(user)
        return self.sum[k]

    def mutated(self, f):
        return self.sum[(f, ())].mut


GENERIC = {"func", "fun", "f", "fnc", "function", "callback", "callable", "fn"}
SPEC = {"inplace", "copy", "return_copy", "deep", "in_place", "overwrite", "append"}


class Interp:
    def __init__(self, eff, f, spec):
        self.eff, self.repo, self.f, self.spec = eff, eff.repo, f, spec
        self.key = (f, tuple(sorted(spec.items())))
        self.s = eff.sum[self.key]
        self.cur = f
        self.loops = []

    # ------------------------------------------------------------------ driver
    def run(self):
        f = self.f
        self.eff.direct[self.key] = []
        self.eff.calls[self.key] = []
        self.stored = self.eff.stores[self.key] = []
        env = {}
        names = list(f.args) + list(f.kwonly) + ([f.vararg] if f.vararg else []) + ([f.kwarg] if f.kwarg else [])
        for p in names:
            r = (("p", p), ())
            if p == f.kwarg or p == f.vararg:
                env[p] = Val((), {(("p", p), ())}, "seq")     # a new dict / tuple per call, its elements are the caller's
            else:
                kind = "pop" if POP.match(p) else "ind" if IND.match(p) else None
                if p == f.selfname:
                    c = self.repo.enclosing_class(f)
                    kind = "pop" if c is not None and c.name == "Population" else "ind" if c is not None and c.name == "Individual" else "self"
                env[p] = Val({r}, {r}, kind)
        self.block(f.body, env)
        if f in self.eff.cached:
            self.s.ret_own.add((("p", f.selfname or "self"), ("cache()",)))

    def block(self, body, env):
        """-> env after the block or None when it does not fall through"""
        for st in body:
            env = self.stmt(st, env)
            if env is None:
                return None
        return env

    def joinenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = v.join(out[k]) if k in out else v
        return out

    def const_test(self, t):
        if isinstance(t, ast.Name) and t.id in self.spec and self.cur is self.f:
            return self.spec[t.id]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.const_test(t.operand)
            return None if v is None else not v
        return None

    def stmt(self, st, env):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested(st.body, st.args, env)
            env = dict(env)
            env[st.name] = FRESH
            return env
        if isinstance(st, ast.ClassDef):
            return env
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            env = dict(env)
            for t in st.targets:
                self.assign(t, v, st.value, env)
            return env
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                v = self.ev(st.value, env)
                env = dict(env)
                self.assign(st.target, v, st.value, env)
            return env
        if isinstance(st, ast.AugAssign):
            self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                v = env.get(t.id)
                if v is None and self.repo.resolve(t, self.f.module, self.f) is not None:
                    v = self.ev(t, env)
                if v is not None and (v.own) and (self.arrayish(t.id, v) or self.solution_array(v)):
                    self.rec(v.own, "item", st, v)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env)
                self.rec(b.own, "attr:" + t.attr, st, b)
                v = env.get(t.value.id + "." + t.attr) if isinstance(t.value, ast.Name) else None
                if v is not None:
                    self.rec(v.own, "item", st, v)
                elif ARRNAMES.match(t.attr):
                    self.rec(self.ext(b.own, t.attr), "item", st, Val())
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env)
                self.rec(b.own, "item", st, b)
                if b.kind == "seq" and b.elem and isinstance(t.value, ast.Name) and (
                        self.holds_arrays(t.value.id) or any(pp and pp[-1] == "result()" for _, pp in b.elem)):
                    self.rec(b.elem, "item", st, b)        # the array in the list is changed, not only its place
                self.ev(t.slice, env)
            return env
        if isinstance(st, ast.Return):
            if st.value is not None:
                v = self.ev(st.value, env)
                if self.cur is self.f:
                    self.s.ret_own |= v.own
                    self.s.ret_elem |= v.elem
                    if v.kind and self.s.ret_kind is None and v.kind != "self":
                        self.s.ret_kind = v.kind
            return None
        if isinstance(st, ast.Raise):
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            # approximated: state joins at loop exit through self.brk
            if self.loops:
                self.loops[-1].append(env)
            return None
        if isinstance(st, ast.Expr):
            self.ev(st.value, env)
            return env
        if isinstance(st, ast.If):
            self.ev(st.test, env)
            c = self.const_test(st.test)
            a = self.block(st.body, env) if c is not False else None
            b = self.block(st.orelse, env) if c is not True else None
            return self.joinenv(a, b)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            e = env
            for _ in range(2):
                self.loops.append([])
                if isinstance(st, ast.While):
                    self.ev(st.test, e)
                    e2 = e
                else:
                    it = self.ev(st.iter, e)
                    e2 = dict(e)
                    self.bind_iter(st.target, it, st.iter, e2)
                o = self.block(st.body, e2)
                for x in self.loops.pop():
                    o = self.joinenv(o, x)
                e = self.joinenv(e, o)
            return self.block(st.orelse, e) if st.orelse else e
        if isinstance(st, ast.With):
            env = dict(env)
            for it in st.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, it.context_expr, env)
            return self.block(st.body, env)
        if isinstance(st, ast.Try):
            o = self.block(st.body, env)
            h = self.joinenv(env, o)
            outs = self.block(st.orelse, o) if (o is not None and st.orelse) else o
            for hd in st.handlers:
                outs = self.joinenv(outs, self.block(hd.body, h))
            if st.finalbody:
                outs2 = self.block(st.finalbody, outs if outs is not None else h)
                return outs2 if outs is not None else None
            return outs
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    b = self.ev(t.value, env)
                    self.rec(b.own, "item", st, b)
                elif isinstance(t, ast.Attribute):
                    b = self.ev(t.value, env)
                    self.rec(b.own, "attr:" + t.attr, st, b)
            return env
        if isinstance(st, ast.Assert):
            self.ev(st.test, env)
            return env
        if isinstance(st, ast.Match):
            out = None
            for c in st.cases:
                out = self.joinenv(out, self.block(c.body, env))
            return self.joinenv(env, out)
        return env

    def nested(self, body, args, env, bind=()):
        e = dict(env)
        ps = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        for i, p in enumerate(ps):
            e[p] = bind[i] if i < len(bind) else FRESH
        for x in (args.vararg, args.kwarg):
            if x:
                e[x.arg] = FRESH
        save, self.cur = self.cur, None
        lo, self.loops = self.loops, []
        if isinstance(body, list):
            self.block(body, e)
            r = FRESH
        else:
            r = self.ev(body, e)
        self.cur, self.loops = save, lo
        return r

    # ------------------------------------------------------------------ assignments
    def assign(self, t, v, expr, env):
        if isinstance(t, ast.Name):
            if self.is_global(t.id):
                self.rec({(("g", f"{self.f.module.name}.{t.id}"), ())}, "rebind", t, None)
                return
            env[t.id] = v
            for k in [k for k in env if k.startswith(t.id + ".")]:
                del env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(expr, (ast.Tuple, ast.List)) and len(expr.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in list(expr.elts) + list(t.elts)):
                vals = [self.ev(e, env) for e in expr.elts]
                for tt, vv, ee in zip(t.elts, vals, expr.elts):
                    self.assign(tt, vv, ee, env)
            else:
                piece = self.piece(v)
                for tt in t.elts:
                    p = piece
                    if isinstance(tt, ast.Name) and p.own and p.kind is None:
                        k = "pop" if POP.match(tt.id) else "ind" if IND.match(tt.id) else None
                        p = Val(p.own, p.elem, k, p.view)
                    self.assign(tt, p, None, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.rec(b.own, "attr:" + t.attr, t, b)
            self.stored.append((b, t.attr, v, t))
            if isinstance(t.value, ast.Name):
                env[t.value.id + "." + t.attr] = Val(v.own | frozenset(self.ext(b.own, t.attr)), v.elem | frozenset(self.ext(b.own, t.attr)), v.kind)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.rec(b.own, "item", t, b)
            # a container now holds the value
            if isinstance(t.value, ast.Name) and t.value.id in env and (v.own or v.elem) and v.kind in ("pop", "ind"):
                o = env[t.value.id]
                env[t.value.id] = Val(o.own, o.elem | v.own | v.elem, o.kind or "seq", o.view)

    def piece(self, v):
        """an element of v"""
        if v.kind == "pop":
            return Val(v.elem, v.elem, "ind")
        if v.kind == "seq":
            return Val(v.elem, v.elem, None)
        return Val(v.own | v.elem, v.elem, None, True)

    def bind_iter(self, t, it, expr, env):
        if isinstance(expr, ast.Call):
            r = self.repo.resolve(expr.func, self.f.module, self.f)
            if isinstance(r, Ext) and r.path == "builtins.enumerate" and expr.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                self.assign(t.elts[0], FRESH, None, env)
                self.assign(t.elts[1], self.piece(self.ev(expr.args[0], env)), None, env)
                return
            if isinstance(r, Ext) and r.path == "builtins.zip" and isinstance(t, ast.Tuple) and len(t.elts) == len(expr.args):
                for tt, a in zip(t.elts, expr.args):
                    self.assign(tt, self.piece(self.ev(a, env)), None, env)
                return
            if isinstance(r, Ext) and r.path == "builtins.range":
                self.assign(t, FRESH, None, env)
                return
            if isinstance(expr.func, ast.Attribute) and expr.func.attr == "items" and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                b = self.ev(expr.func.value, env)
                self.assign(t.elts[0], FRESH, None, env)
                self.assign(t.elts[1], Val(b.own | b.elem, b.elem, None), None, env)
                return
        self.assign(t, self.piece(it), None, env)

    def is_global(self, name):
        f = self.f
        g = getattr(f, "_globals", None)
        if g is None:
            g = set()
            for n in f.walk():
                if isinstance(n, ast.Global):
                    g.update(n.names)
            f._globals = g
        return name in g

    def ext(self, own, attr):
        out = set()
        for r, p in own:
            out.add((r, (p + (attr,))[:MAXPATH] if len(p) < MAXPATH else p))
        return out

    def arrayish(self, name, v):
        if v.kind in ("pop", "ind", "self"):
            return True
        if v.view and v.kind is None:
            pass
        if ARRNAMES.match(name):
            return True
        for x in self.repo.local_assigns(self.f).get(name, []):
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            if nm is not None and ARRNAMES.match(nm) and len(nm) > 1:
                return True
        return name in self.evidence()

    def holds_arrays(self, name):
        """is the list `name` written with rows or other parts of arrays in it"""
        for x in self.repo.local_assigns(self.f).get(name, []):
            if isinstance(x, (ast.List, ast.Tuple)) and x.elts:
                for y in x.elts:
                    if isinstance(y, ast.Subscript) and any(isinstance(k, ast.Slice) for k in ([y.slice] if not isinstance(y.slice, ast.Tuple) else y.slice.elts)):
                        return True
                    if isinstance(y, ast.Name) and y.id in self.evidence():
                        return True
        return False

    def solution_array(self, v):
        """the variables or values of a solution"""
        sn = self.repo.self_name(self.f)
        return any(p and p[-1] in ("X", "F", "G", "H", "CV", "dF", "dG") and not (len(p) == 1 and r == ("p", sn)) for r, p in v.own)

    def evidence(self):
        f = self.f
        ev = getattr(f, "_arrev", None)
        if ev is None:
            ev = set()
            for n in f.walk():
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                    ev.add(n.value.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ("shape", "T", "ndim", "copy", "astype", "dtype", "sum", "mean", "min", "max", "reshape", "ravel", "flatten", "dot"):
                    ev.add(n.value.id)
                elif isinstance(n, ast.Call) and any(k.arg == "axis" for k in n.keywords) and n.args and isinstance(n.args[0], ast.Name):
                    ev.add(n.args[0].id)
            # rows of what is known to have two dimensions
            two = set()
            for n in f.walk():
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2 \
                        and not any(isinstance(x, ast.Constant) and x.value is None for x in n.slice.elts):
                    two.add(n.value.id)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) >= 2 \
                        and isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.value.value, ast.Name):
                    two.add(n.value.value.id)
                elif isinstance(n, ast.Call) and any(k.arg == "axis" and isinstance(k.value, ast.Constant) and k.value.value == 1 for k in n.keywords):
                    b = n.args[0] if n.args else n.func.value if isinstance(n.func, ast.Attribute) else None
                    if isinstance(b, ast.Name):
                        two.add(b.id)
            for n in f.walk():
                if isinstance(n, (ast.For, ast.comprehension)):
                    it, t = n.iter, n.target
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and isinstance(t, ast.Tuple):
                        ps = [(t.elts[1], it.args[0])] if it.func.id == "enumerate" and it.args and len(t.elts) == 2 else \
                            list(zip(t.elts, it.args)) if it.func.id == "zip" else []
                    else:
                        ps = [(t, it)]
                    for a, b in ps:
                        if isinstance(a, ast.Name) and isinstance(b, ast.Name) and b.id in two:
                            ev.add(a.id)
            # aliases y = x share evidence
            for nm, vals in self.repo.local_assigns(f).items():
                for x in vals:
                    if isinstance(x, ast.Name) and x.id in ev:
                        ev.add(nm)
                    if isinstance(x, (ast.Subscript,)) and isinstance(x.value, ast.Name) and isinstance(x.slice, (ast.Slice, ast.Tuple)):
                        ev.add(nm)
            f._arrev = ev
        return ev

    # ------------------------------------------------------------------ recording
    def rec(self, roots, what, node, val, via=None):
        loc = f"{self.f.module.rel}:{getattr(node, 'lineno', self.f.lineno)} {self.f.qual}"
        if via is None:
            self.eff.direct[self.key].append((roots, what, node, val, via))
        for r, p in roots:
            k = (r, p, what)
            if k not in self.s.mut:
                self.s.mut[k] = Mut(r, p, what, loc, via, node, self.f, val.kind if val is not None else None)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return FRESH
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch, env)
        return FRESH

    def e_Name(self, e, env):
        v = env.get(e.id)
        if v is not None:
            return v
        if e.id in self.repo.local_names(self.f):
            return FRESH
        g = self.f.parent
        while g is not None:
            if e.id in self.repo.local_names(g):
                return FRESH
            g = g.parent
        r = self.repo.resolve(e, self.f.module, self.f)
        if isinstance(r, Var):
            rt = (("g", f"{r.module.name}.{r.name}"), ())
            return Val({rt}, {rt}, None)
        return FRESH

    def e_Attribute(self, e, env):
        if isinstance(e.value, ast.Name):
            v = env.get(e.value.id + "." + e.attr)
            if v is not None:
                return v
        b = self.ev(e.value, env)
        if e.attr in VIEW_ATTR:
            return Val(b.own, b.elem, b.kind, True)
        if e.attr in ("shape", "size", "ndim", "dtype"):
            return FRESH
        if not b.own:
            r = self.repo.resolve(e, self.f.module, self.f)
            if isinstance(r, Var):
                rt = (("g", f"{r.module.name}.{r.name}"), ())
                return Val({rt}, {rt}, None)
            if isinstance(r, Class) or isinstance(r, (Func, Ext, ModRef)):
                return FRESH
            # class attribute through a class object: C.attr
            rb = self.repo.resolve(e.value, self.f.module, self.f)
            if isinstance(rb, Class) and e.attr in rb.class_attrs:
                rt = (("g", f"{rb.module.name}.{rb.qual}.{e.attr}"), ())
                return Val({rt}, {rt}, None)
        own = self.ext(b.own, e.attr)
        kind = "pop" if POP.match(e.attr) else "ind" if IND.match(e.attr) else None
        return Val(own, own, kind)

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        self.ev(e.slice, env)
        k = self.index_kind(e.slice)
        if b.kind == "pop":
            if k == "slice":
                return Val(b.own, b.elem, "pop", True)
            if k == "adv":
                return Val((), b.elem, "pop")
            if k == "int":
                return Val(b.elem, b.elem, "ind")
            return Val(b.elem, b.elem, "pop")
        if b.kind == "seq":
            if k == "slice":
                return Val((), b.elem, "seq")
            if isinstance(e.value, ast.Name) and any(pp and pp[-1] == "result()" for _, pp in b.elem) and (
                    not isinstance(e.slice, ast.Constant) or self.stores_key(e.value.id, e.slice)):
                return FRESH        # this entry was put there by the function itself
            return Val(b.elem, b.elem, None)
        if k == "adv":
            return Val((), (), None)
        return Val(b.own, b.elem, None, True)

    def stores_key(self, name, key):
        d = ast.dump(key)
        return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name
                                                     and ast.dump(t.slice) == d for t in n.targets) for n in self.f.walk())

    def index_kind(self, s):
        if isinstance(s, ast.Slice):
            return "slice"
        if isinstance(s, ast.Constant):
            if isinstance(s.value, int) and not isinstance(s.value, bool):
                return "int"
            return "view"
        if isinstance(s, ast.UnaryOp):
            if isinstance(s.op, ast.Invert):
                return "adv"
            return self.index_kind(s.operand) if not isinstance(s.op, ast.Not) else "adv"
        if isinstance(s, ast.Tuple):
            ks = [self.index_kind(x) for x in s.elts]
            if "adv" in ks:
                return "adv"
            if all(k in ("int",) for k in ks):
                return "adv"        # all scalars: a single element, nothing to share (numeric)
            return "view"
        if isinstance(s, (ast.Compare, ast.List, ast.ListComp, ast.BoolOp)):
            return "adv"
        if isinstance(s, ast.Call):
            return "adv" if not (isinstance(s.func, ast.Name) and s.func.id in ("int", "len", "slice")) and not (
                isinstance(s.func, ast.Attribute) and s.func.attr in ("argmin", "argmax", "integers", "item")) else "int"
        if isinstance(s, ast.BinOp):
            ks = {self.index_kind(s.left), self.index_kind(s.right)}
            return "int" if ks <= {"int"} else "adv" if "adv" in ks or isinstance(s.op, (ast.BitAnd, ast.BitOr)) else "unk"
        if isinstance(s, ast.Name):
            return self.name_index(s.id)
        if isinstance(s, ast.Subscript):
            return "unk"
        return "unk"

    def name_index(self, nm, depth=0):
        f = self.f
        cache = f.__dict__.setdefault("_idx", {})
        if nm in cache:
            return cache[nm]
        cache[nm] = "unk"
        out = set()
        for n in f.walk():
            if isinstance(n, (ast.For, ast.comprehension)) and nm in target_names(n.target):
                it = n.iter
                d = dotted(it.func) if isinstance(it, ast.Call) else None
                if d in ("range", "np.arange", "numpy.arange"):
                    out.add("int")
                elif d == "enumerate" and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name) and n.target.elts[0].id == nm:
                    out.add("int")
                elif isinstance(n.target, ast.Name) and isinstance(it, ast.Name) and nm.islower():
                    out.add("int")
                else:
                    out.add("unk")
        for v in self.repo.local_assigns(f).get(nm, []):
            if v is None:
                continue
            k = self.index_value(v, depth)
            out.add(k)
        if not out:
            if re.match(r"^(i|j|k|n|m|l|idx|index|pos|row|col|start|end|a|b)$", nm):
                out = {"int"}
            elif nm.isupper() or nm in ("mask", "indices", "ind", "sel", "feas", "infeas", "perm", "order", "sorted_idx"):
                out = {"adv"}
            else:
                out = {"unk"}
        r = out.pop() if len(out) == 1 else ("int" if out <= {"int"} else "adv" if out == {"adv"} else "unk")
        cache[nm] = r
        return r

    def index_value(self, v, depth):
        """kind of index that the value of expression v is"""
        if isinstance(v, (ast.Compare, ast.ListComp, ast.List, ast.BoolOp)):
            return "adv"
        if isinstance(v, ast.Constant):
            return "int" if isinstance(v.value, int) else "unk"
        if isinstance(v, ast.BinOp):
            a, b = self.index_value(v.left, depth + 1), self.index_value(v.right, depth + 1)
            return "int" if a == b == "int" else "adv" if "adv" in (a, b) else "unk"
        if isinstance(v, ast.UnaryOp):
            return self.index_value(v.operand, depth + 1)
        if isinstance(v, ast.Call):
            at = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ""
            axis = any(k.arg in ("axis", "size") for k in v.keywords)
            if at in ("argmin", "argmax", "integers", "randint", "item") and not axis and len(v.args) <= 2:
                return "int"
            if at in ("int", "len", "round", "floor", "index"):
                return "int"
            if at in ("where", "nonzero", "flatnonzero", "argsort", "permutation", "arange", "array", "asarray", "choice", "isnan", "isinf",
                      "logical_and", "logical_or", "any", "all", "isin", "unique", "concatenate", "setdiff1d", "lexsort", "argpartition",
                      "zeros", "ones", "full", "isclose", "triu_indices", "random_permutations", "randomized_argsort", "intersect", "column_stack"):
                return "adv"
            return "unk"
        if isinstance(v, ast.Subscript):
            b = v.value
            if isinstance(b, ast.Call):
                at = b.func.attr if isinstance(b.func, ast.Attribute) else ""
                if at in ("where", "nonzero"):
                    return "adv"
                if at in ("argsort", "flatnonzero", "permutation", "choice", "random_permutations"):
                    return "int" if not isinstance(v.slice, ast.Slice) else "adv"
            if isinstance(b, ast.Name) and depth < 4:
                k = self.name_index(b.id, depth + 1)
                if k == "adv":
                    return "adv" if isinstance(v.slice, ast.Slice) or self.index_kind(v.slice) == "adv" else "int" if self.index_kind(v.slice) == "int" else "unk"
            return "unk"
        if isinstance(v, ast.Name) and depth < 4:
            return self.name_index(v.id, depth + 1)
        return "unk"

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Add) and ("seq" in (a.kind, b.kind) or "pop" in (a.kind, b.kind)):
            return Val((), a.elem | b.elem, "seq")
        return FRESH

    def e_BoolOp(self, e, env):
        out = None
        for v in e.values:
            out = self.ev(v, env).join(out)
        return out

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        c = self.const_test(e.test)
        if c is True:
            return self.ev(e.body, env)
        if c is False:
            return self.ev(e.orelse, env)
        return self.ev(e.body, env).join(self.ev(e.orelse, env))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def seq(self, elts, env):
        own = set()
        for x in elts:
            v = self.ev(x.value if isinstance(x, ast.Starred) else x, env)
            own |= (v.elem if isinstance(x, ast.Starred) else v.own | (v.elem if v.kind in ("pop", "seq") else frozenset()))
        return Val((), own, "seq")

    def e_List(self, e, env):
        return self.seq(e.elts, env)

    e_Tuple = e_Set = e_List

    def e_Dict(self, e, env):
        own = set()
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env)
            own |= x.own
            if k is not None:
                self.ev(k, env)
        return Val((), own, "seq")

    def comp(self, e, elts, env):
        env = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, env)
            self.bind_iter(g.target, it, g.iter, env)
            for c in g.ifs:
                self.ev(c, env)
        own = set()
        for x in elts:
            v = self.ev(x, env)
            own |= v.own
        return Val((), own, "seq")

    def e_ListComp(self, e, env):
        return self.comp(e, [e.elt], env)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        self.comp(e, [e.key], env)
        return self.comp(e, [e.value], env)

    def e_Lambda(self, e, env):
        self.nested(e.body, e.args, env)
        return FRESH

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        if e.value is not None:
            self.ev(e.value, env)
        return FRESH

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return FRESH

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        repo, f = self.repo, self.f
        fn = e.func
        recv = None
        if isinstance(fn, ast.Attribute):
            if not (isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"):
                recv = self.ev(fn.value, env)
            else:
                sn = self.repo.self_name(f)
                recv = env.get(sn, FRESH)
        elif isinstance(fn, ast.Name):
            if fn.id in env:
                recv = env[fn.id]     # callable object
        else:
            self.ev(fn, env)
        lam = [a for a in list(e.args) + [k.value for k in e.keywords] if isinstance(a, ast.Lambda)]
        args = [self.ev(a, env) if not isinstance(a, ast.Lambda) else FRESH for a in e.args]
        kws = {k.arg: (self.ev(k.value, env) if not isinstance(k.value, ast.Lambda) else FRESH) for k in e.keywords}
        for a in lam:
            b = []
            if isinstance(fn, ast.Attribute) and recv is not None and recv.kind in ("pop",) and fn.attr in ("apply", "collect"):
                b = [self.piece(recv)]
            elif isinstance(fn, ast.Name) and fn.id in ("map", "filter", "sorted", "min", "max"):
                b = [self.piece(args[1] if len(args) > 1 and fn.id in ("map", "filter") else (args[0] if args else FRESH))]
            self.nested(a.body, a.args, env, b)

        r = repo.resolve(fn, f.module, f)
        # population / individual protocol --------------------------------------------------------
        if isinstance(fn, ast.Attribute) and recv is not None and not isinstance(r, (Ext, Class)):
            nm = fn.attr
            if recv.kind in ("pop", "ind") and nm == "set" or (nm == "set" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str)):
                keys = [a.value if isinstance(a, ast.Constant) else "*" for a in e.args[::2]] + [k.arg or "*" for k in e.keywords]
                tgt = recv.elem if recv.kind == "pop" else recv.own | recv.elem if recv.kind is None else recv.own
                for k in keys:
                    self.rec(tgt, f"attr:{k}", e, Val(recv.own, recv.elem, recv.kind or "pop"))
                return Val(recv.own, recv.elem, recv.kind)
            if nm == "get" and recv.kind in ("pop", "ind", "self", None) and e.args and all(isinstance(a, ast.Constant) for a in e.args[:1]):
                key = e.args[0].value if e.args else None
                if recv.kind == "pop":
                    tn = kws.get("to_numpy")
                    return FRESH
                if recv.kind == "ind" and isinstance(key, str):
                    own = self.ext(recv.own, key)
                    return Val(own, own, None)
                own = recv.own | recv.elem
                if recv.kind == "seq" or (isinstance(key, str) and recv.kind is None and recv.own):
                    return Val(own, own, None)
                return FRESH
            if nm == "copy" and not repo.resolve_call(e, f, fallback=False):
                if recv.kind == "pop":
                    return Val((), recv.elem, "pop")
                if recv.kind == "seq":
                    return Val((), recv.elem, "seq")
                return FRESH
            if nm == "copy" and recv.kind in ("pop", "ind"):
                return Val((), recv.elem if recv.kind == "pop" else (), recv.kind)
        # externals --------------------------------------------------------------------------------
        if isinstance(r, Ext):
            return self.ext_call(e, r, args, kws, env)
        if isinstance(r, Class):
            return self.ctor(e, r, args, kws, env)
        ts = [r] if isinstance(r, Func) else [t for t in repo.resolve_call(e, f, fallback=False)]
        ts = [t for t in ts if isinstance(t, Func)]
        if not ts and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Attribute) and fn.value.attr == "__object__" and f.cls is not None:
            for k in f.cls.mro:         # the problem that is wrapped
                if isinstance(k, Class) and k.name == "Problem" and fn.attr in k.methods:
                    ts = [k.methods[fn.attr]]
        if isinstance(fn, ast.Name) and fn.id in GENERIC and fn.id in f.all_params:
            ts = []         # a callable handed in by the caller: not ours to judge
        if recv is not None and isinstance(fn, ast.Attribute) and not isinstance(r, Func):
            nm = fn.attr
            typed = self.receiver_typed(fn.value)
            if nm in VIEW_METHODS and (not ts or not typed):
                return Val(recv.own, recv.elem, recv.kind, True)
            if nm == "astype" and any(k.arg == "copy" and not (isinstance(k.value, ast.Constant) and k.value.value) for k in e.keywords):
                return Val(recv.own, recv.elem, recv.kind, True)
            if nm == "clip" and len(e.args) == 3:
                self.rec(args[2].own, "item", e, args[2])
            if "out" in kws:
                self.rec(kws["out"].own, "item", e, kws["out"])
            if nm in FRESH_METHODS and (not ts or not typed):
                return FRESH
            if nm in MUT_METHODS and (not ts or not typed):
                if recv.kind in ("pop",) and nm in ("sort", "fill"):
                    pass
                what = "item"
                if nm == "set":
                    what = "attr:*"
                self.rec(recv.own, what, e, recv)
                if nm in ("append", "add", "insert", "appendleft", "extend", "update") and isinstance(fn.value, ast.Name) and fn.value.id in env:
                    add = set()
                    for a in args:
                        if a.kind in ("pop", "ind", "seq") or nm in ("append", "insert", "appendleft"):
                            add |= a.own | (a.elem if nm in ("extend", "update") else frozenset())
                    o = env[fn.value.id]
                    env[fn.value.id] = Val(o.own, o.elem | add, o.kind or "seq", o.view)
                if nm in ("pop", "popleft", "popitem", "setdefault"):
                    return Val(recv.own | recv.elem, recv.elem, None)
                return FRESH
            if nm in ("values", "items"):
                return Val((), recv.own | recv.elem, "seq")
            # drawing methods of generators that work in place
            if nm == "shuffle" and args:
                self.rec(args[0].own, "item", e, args[0])
                return FRESH
        if any(k.arg == "out" for k in e.keywords) and not ts:
            v = kws["out"]
            self.rec(v.own, "item", e, v)
        if not ts:
            return FRESH
        out = None
        for t in ts[:200]:
            out = self.apply(e, t, recv, args, kws, env).join(out)
        if isinstance(fn, ast.Attribute) and fn.attr == "do" and recv is not None and recv.own and all(
                t.cls is not None and any(isinstance(k, Class) and k.name == "Problem" for k in t.cls.mro) for t in ts):
            got = self.ext(recv.own, "result()")         # the arrays the problem has written into its result: they are the problem's
            out = Val(out.own if out else (), (out.elem if out else frozenset()) | got, "seq")
        if out is not None and (out.own or out.elem) and self.creates(fn):
            return Val((), (), "pop")       # Crossover / Sampling: new solutions (checked for their own do by P04)
        return out or FRESH

    def creates(self, fn):
        """the callee is an operator that creates new solutions"""
        o = fn.value if isinstance(fn, ast.Attribute) and fn.attr in ("do", "__call__") else fn
        if not isinstance(o, (ast.Name, ast.Attribute)):
            return False
        ts = self.repo.typeset(o, self.f)
        if ts:
            ops = [t for t in ts if any(isinstance(k, Class) and k.name == "Operator" for k in t.mro)]
            return bool(ops) and all(any(isinstance(k, Class) and k.name in ("Crossover", "Sampling") for k in t.mro) for t in ops)
        nm = o.attr if isinstance(o, ast.Attribute) else o.id
        return nm.lower().strip("_") in ("crossover", "sampling", "cross", "xover")

    def receiver_typed(self, v):
        """the receiver expression is known to be an instance of a package class (not only by the variable's name)"""
        if isinstance(v, ast.Name) and v.id == self.repo.self_name(self.f):
            return True
        if isinstance(v, ast.Call):
            return True
        if isinstance(v, ast.Attribute):
            return bool(self.repo.typeset(v, self.f))
        if isinstance(v, ast.Name):
            return bool(self.repo.typeset(v, self.f))
        return False

    def ext_call(self, e, r, args, kws, env):
        p = r.path
        last = p.split(".")[-1]
        if p == "copy.deepcopy":
            return Val((), (), args[0].kind if args else None)
        if p == "builtins.getattr" and args:
            a = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "*"
            own = self.ext(args[0].own, a)
            return Val(own, own, None)
        if p in EXT_MUT:
            for i in EXT_MUT[p]:
                if i < len(args):
                    what = "item"
                    if p in ("builtins.setattr", "builtins.delattr"):
                        a = e.args[1]
                        what = "attr:" + (a.value if isinstance(a, ast.Constant) else "*")
                    self.rec(args[i].own, what, e, args[i])
            return FRESH
        if re.match(r"^_?operator\.(i(add|sub|mul|truediv|floordiv|mod|pow|and|or|xor|concat)|setitem|delitem)$", p) and args:
            self.rec(args[0].own, "item", e, args[0])
            return args[0]
        if p == "numpy.nditer" and args and any(k.arg == "op_flags" and any(isinstance(x, ast.Constant) and x.value in ("readwrite", "writeonly")
                                                                           for x in ast.walk(k.value)) for k in e.keywords):
            self.rec(args[0].own, "item", e, args[0])
            return args[0]
        if args and any(k.arg and k.arg.startswith("overwrite_") and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
            self.rec(args[0].own, "item", e, args[0])
        if UFUNC_AT.match(p) and args:
            self.rec(args[0].own, "item", e, args[0])
            return FRESH
        if "out" in kws:
            o = kws["out"]
            self.rec(o.own | (o.elem if o.kind == "seq" else frozenset()), "item", e, o)
            return o
        if p.startswith("numpy.") and p.count(".") == 1 and not any(isinstance(a, ast.Starred) for a in e.args):
            i = 1 if last in UNARY else 2 if last in BINARY else 3 if last == "clip" else None
            if i is not None and len(args) > i:
                self.rec(args[i].own, "item", e, args[i])
                return args[i]
        if p == "numpy.nan_to_num" or (p in ("numpy.array",) and "copy" in kws):
            for k in e.keywords:
                if k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value and args:
                    if p == "numpy.nan_to_num":
                        self.rec(args[0].own, "item", e, args[0])
                    return args[0]
            if p == "numpy.nan_to_num" and len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and not e.args[1].value:
                self.rec(args[0].own, "item", e, args[0])
                return args[0]
        if p in SHALLOW or p in ("numpy.concatenate", "numpy.array", "numpy.append", "numpy.hstack", "numpy.delete", "numpy.unique"):
            elem, kind = set(), "seq"
            for a in args:
                if a.kind in ("pop", "seq", "ind"):
                    elem |= a.elem if a.kind != "ind" else a.own
                elif p in SHALLOW:
                    elem |= a.own
                if a.kind == "pop":
                    kind = "pop"
            if p.startswith("numpy.") and kind != "pop":
                return FRESH
            if p == "builtins.zip":
                elem = set().union(*[(a.elem if a.kind in ("pop", "seq") else a.own) for a in args]) if args else set()
            return Val((), elem, kind)
        if p in PICK and args:
            v = Val()
            for a in args:
                v = self.piece(a).join(v) if len(args) == 1 else a.join(v)
            return v
        if p.startswith("numpy.") and last in VIEW_FUNCS and args:
            a = args[0]
            return Val(a.own, a.elem, a.kind, True)
        if p == "builtins.super":
            return env.get(self.repo.self_name(self.f), FRESH)
        if p == "builtins.vars" and args:
            return args[0]
        if p in ("builtins.map",):
            for a in e.args[:1]:
                rr = self.repo.resolve(a, self.f.module, self.f)
                if isinstance(rr, Func) and len(args) > 1:
                    self.apply_vals(e, rr, None, [self.piece(x) for x in args[1:]], {})
            return FRESH
        return FRESH

    def ctor(self, e, c, args, kws, env):
        if c.name == "Population":
            el = set()
            for a in args + list(kws.values()):
                el |= a.elem if a.kind in ("pop", "seq") else a.own
            return Val((), el, "pop")
        i = c.lookup("__init__")
        if i is not None:
            self.apply(e, i, FRESH, args, kws, env)
        return Val((), (), "ind" if c.name == "Individual" else None)

    def apply(self, e, t, recv, args, kws, env):
        # bind
        fn = e.func
        explicit_self = False
        r = self.repo.resolve(fn, self.f.module, self.f)
        if isinstance(r, Func) and t.is_method and not t.is_static and not t.is_classmethod:
            explicit_self = True       # Base.method(self, ...)
        if t.cls is not None and t.cls.name == "Population":
            if t.name in ("merge", "create"):
                el = set()
                for a in args:
                    el |= a.elem if a.kind in ("pop", "seq") else (a.own | a.elem)
                return Val((), el, "pop")
            if t.name == "new" or t.name == "empty":
                return Val((), (), "pop")
            if t.name in ("apply", "collect", "get", "has"):
                return FRESH
        if t.name == "merge" and t.module.name == "pymoo.core.population":
            return Val((), set().union(*[a.elem for a in args]) if args else (), "pop")
        b = {}
        params = list(t.args) if (explicit_self or t.selfname is None) else t.params
        extra = []
        star = False
        for i, (a, v) in enumerate(zip(e.args, args)):
            if isinstance(a, ast.Starred):
                star = True
                extra.append(v)
            elif star or i >= len(params):
                extra.append(v)
            else:
                b[params[i]] = v
        xk = []
        for k in e.keywords:
            v = kws.get(k.arg, FRESH)
            if k.arg is None:
                xk.append(Val((), v.elem, "seq"))
            elif k.arg in params or k.arg in t.kwonly:
                b[k.arg] = v
            else:
                xk.append(v)
        if not explicit_self and t.selfname and recv is not None:
            b[t.selfname] = recv
        if t.vararg and extra:
            v = Val()
            for x in extra:
                v = Val(v.own, v.elem | x.own | x.elem, "seq")
            b[t.vararg] = v
        if t.kwarg and xk:
            v = Val()
            for x in xk:
                v = Val(v.own, v.elem | x.own | x.elem, "seq")
            b[t.kwarg] = v
        # specialise boolean flags
        spec = {}
        for p in SPEC & set(t.all_params):
            a = None
            for i, x in enumerate(e.args):
                if not isinstance(x, ast.Starred) and i < len(params) and params[i] == p:
                    a = x
            for k in e.keywords:
                if k.arg == p:
                    a = k.value
            if a is None:
                a = t.defaults.get(p)
            if isinstance(a, ast.Constant) and isinstance(a.value, bool):
                spec[p] = a.value
        return self.use(e, t, tuple(sorted(spec.items())), b)

    def apply_vals(self, e, t, recv, vals, kws):
        b = dict(zip(t.params, vals))
        return self.use(e, t, (), b)

    def use(self, e, t, spec, b):
        self.eff.calls[self.key].append((e, t, b))
        s = self.eff.summary(t, spec, self.key)
        for (root, path, what), mu in list(s.mut.items()):
            if root[0] == "g":
                self.rec({(root, path)}, what, e, Val((), (), mu.vkind), via=mu)
                continue
            v = b.get(root[1])
            if v is None:
                continue
            isx = root[1] in (t.vararg, t.kwarg)
            src = v.elem if (isx or (v.kind in ("pop", "seq") and (what.startswith("attr") or path))) else v.own
            roots = {(r, (p + path)[:MAXPATH]) for r, p in src}
            if roots:
                self.rec(roots, what, e, Val((), (), mu.vkind), via=mu)
        own, elem = set(), set()
        for (root, path) in s.ret_own:
            if root[0] == "g":
                own.add((root, path))
            elif root[1] in b:
                v = b[root[1]]
                own |= {(r, (p + path)[:MAXPATH]) for r, p in (v.own if v.kind != "seq" else v.elem)}
        for (root, path) in s.ret_elem:
            if root[0] == "g":
                elem.add((root, path))
            elif root[1] in b:
                v = b[root[1]]
                elem |= {(r, (p + path)[:MAXPATH]) for r, p in (v.elem or v.own)}
        return Val(own, elem, s.ret_kind)


def chain(mu, n=8):
    """call chain from the recorded mutation to the statement that performs it"""
    out = [f"{mu.loc} `{unparse(mu.node, 60)}`"]
    while mu.via is not None and n > 0:
        mu = mu.via
        out.append(f"{mu.loc} `{unparse(mu.node, 60)}`")
        n -= 1
    return " -> ".join(out)
