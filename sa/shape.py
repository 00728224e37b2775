"""Symbolic shapes: an abstract interpreter for numpy code.

Arrays carry a tuple of symbolic dimensions (linear expressions over the parameters of the problem), whether
they depend on the designs that are evaluated, which single rows of the batch they were computed from, and the
places where values of several rows were mixed. Conditions on parameters fork the execution (by replaying it
with another list of decisions); conditions on data execute both branches and join the states.
"""
import ast
from .model import Repo, Func, Class, Ext, ModRef, Var, bind_args, unparse
from .lens import Lin

N = "N"
MAXDEPTH = 14
UNROLL = 14


class Stop(Exception):
    pass


class GiveUp(Exception):
    pass


def L(k):
    return k if isinstance(k, Lin) else Lin(k=k)


def A(name):
    return Lin({name: 1})


def lmul(a, b):
    r = Lin()
    for x, cx in list(a.c.items()) + [(None, a.k)]:
        for y, cy in list(b.c.items()) + [(None, b.k)]:
            c = cx * cy
            if not c:
                continue
            if x is None and y is None:
                r = r + c
            elif x is None or y is None:
                r = r + Lin({x if y is None else y: c})
            else:
                m = "*".join(sorted(x.split("*") + y.split("*")))
                r = r + Lin({m: c})
    return r


def batch(d):
    """the dimension is the batch, or a part of the batch"""
    return isinstance(d, Lin) and d.k == 0 and len(d.c) == 1 and all((a == N or a.startswith("sub#")) and c == 1 for a, c in d.c.items())


def has_batch(d):
    return isinstance(d, Lin) and any(p == N or p.startswith("sub#") for a in d.c for p in a.split("*"))


class V:
    """an abstract value"""
    __slots__ = ("k", "shape", "lin", "const", "items", "elem", "length", "x", "rows", "mix", "obj", "pos", "ident", "may", "bc", "isbool", "anyall", "name", "base", "isx")

    def __init__(self, k="unk", shape=None, lin=None, const=None, items=None, elem=None, length=None, x=False, rows=frozenset(), mix=frozenset(), obj=None, pos=False, ident=None, may=False, bc=None, isbool=False, anyall=False, name=None, base=None, isx=False):
        self.k, self.shape, self.lin, self.const, self.items, self.elem, self.length = k, shape, lin, const, items, elem, length
        self.x, self.rows, self.mix, self.obj, self.pos, self.ident, self.may, self.bc, self.isbool, self.anyall, self.name, self.base = x, rows, mix, obj, pos, ident, may, bc, isbool, anyall, name, base
        self.isx = isx

    def but(self, **kw):
        v = V(*[getattr(self, s) for s in self.__slots__])
        v.isx = False
        for a, b in kw.items():
            setattr(v, a, b)
        return v

    def __repr__(self):
        s = f"<{self.k}"
        for a in ("shape", "lin", "const", "items", "elem", "length", "obj"):
            x = getattr(self, a)
            if x is not None:
                s += f" {a}={x}"
        return s + (" X" if self.x else "") + (f" rows={set(self.rows)}" if self.rows else "") + (f" mix={len(self.mix)}" if self.mix else "") + (" may" if self.may else "") + ">"


UNK = V()
NONE = V("none")


def num(lin=None, const=None, **k):
    if const is not None and not isinstance(const, bool) and isinstance(const, int):
        lin = Lin(k=const)
    if lin is not None and const is None and not lin.c and isinstance(lin.k, int):
        const = lin.k
    return V("num", lin=lin, const=const, **k)


def arr(*shape, **k):
    return V("arr", shape=tuple(shape), **k)


def seq(items=None, elem=None, length=None, **k):
    if items is not None:
        length = Lin(k=len(items))
    v = V("list", items=items, elem=elem, length=length, **k)
    return v


def parts(v):
    """everything a value is made of"""
    if v.k == "list":
        return list(v.items) if v.items is not None else ([v.elem] if v.elem is not None else [])
    return []


def taint(vs):
    """(depends on the designs, rows, mixed)"""
    x, rows, mix = False, frozenset(), frozenset()
    todo, n = list(vs), 0
    while todo and n < 3000:
        v = todo.pop()
        n += 1
        if v is None:
            continue
        x = x or v.x
        rows |= v.rows
        mix |= v.mix
        todo += parts(v)
    return x, rows, mix


class Heap:
    def __init__(self, d=None):
        self.d = d or {}

    def copy(self):
        return Heap({k: dict(v) for k, v in self.d.items()})


class State:
    def __init__(self):
        self.env, self.heap, self.facts, self.ctl = {}, Heap(), [], frozenset()

    def copy(self):
        s = State()
        s.env, s.heap, s.facts, s.ctl = dict(self.env), self.heap.copy(), list(self.facts), self.ctl
        return s

    def take(self, o):
        self.env, self.heap, self.facts, self.ctl = o.env, o.heap, o.facts, o.ctl


class Frame:
    def __init__(self, func, cls=None):
        self.func, self.cls, self.returns, self.loops = func, cls, [], []


UNARY = set("""sin cos tan arcsin arccos arctan exp exp2 expm1 log log2 log10 log1p sqrt square abs absolute fabs floor ceil round rint around sign negative isnan isinf isfinite
logical_not real imag conj conjugate degrees radians deg2rad rad2deg sinh cosh tanh cbrt reciprocal nan_to_num signbit trunc invert ascontiguousarray copy array_copy atleast_1d positive angle sinc""".split())
BINARY = set("""add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod minimum maximum fmin fmax arctan2 hypot logical_and logical_or logical_xor greater greater_equal
less less_equal equal not_equal copysign heaviside bitwise_and bitwise_or pow isclose""".split())
REDUCE = set("sum prod mean min max amin amax std var all any median nansum nanmin nanmax nanmean ptp argmin argmax count_nonzero average product nanprod logsumexp quantile percentile".split())
ALONG = set("cumsum cumprod sort argsort flip roll diff gradient cumulative_sum partition argpartition nancumsum flipud fliplr".split())
LIBS = ("numpy.", "autograd.numpy.", "pymoo.gradient.toolbox.", "math.", "scipy.special.", "jax.numpy.")


def libname(path):
    for p in LIBS:
        if path.startswith(p):
            return path[len(p):]
    return None


class Shapes:
    """interprets one method of one class with one list of decisions"""

    def __init__(self, repo, decisions=()):
        self.repo, self.decisions, self.taken, self.names = repo, list(decisions), [], {}
        self.st = State()
        self.frames, self.depth, self.steps, self.inloop = [], 0, 0, 0
        self.ids, self.memo, self.notes, self.issues, self.unknown = 0, {}, [], [], set()
        self.conds = []
        self.known = {}

    # ------------------------------------------------------------------ bookkeeping
    def new(self, hint="o"):
        self.ids += 1
        return f"{hint}#{self.ids}"

    def fresh(self, hint, *key):
        """an atom that is the same for the same key"""
        k = (hint,) + tuple(repr(x) for x in key)
        if not key:
            return A(self.new(hint))
        if k not in self.memo:
            self.memo[k] = self.new(hint)
        return A(self.memo[k])

    def where(self, node):
        f = self.frames[-1].func if self.frames else None
        return (f.id if f is not None else "?", getattr(node, "lineno", 0), unparse(node, 80))

    def issue(self, rule, node, what, v=None):
        w = self.where(node)
        self.issues.append((rule, w, what))

    def decide(self, key, both=None):
        """fork: the first time True, in another replay False"""
        if key in self.known:
            return self.known[key]
        i = len(self.taken)
        if i < len(self.decisions):
            d = self.decisions[i]
        else:
            d = True
        if i >= 10:
            raise GiveUp("too many conditions on parameters")
        self.taken.append(d)
        self.known[key] = d
        self.names[i] = key
        return d

    # ------------------------------------------------------------------ facts
    def ge(self, e, facts=None):
        """e >= 0 is known"""
        facts = self.st.facts if facts is None else facts
        if not e.c:
            return e.k >= 0
        sub = self.subst(e)
        if not sub.c:
            return sub.k >= 0

        def ok(r):
            return r.k >= 0 and all(c > 0 and (a == N or a.startswith("sub#") or a.startswith("dim")) for a, c in r.c.items())
        if ok(sub):
            return True
        for f in facts:
            f = self.subst(f)
            if ok(sub - f):
                return True
            if any(a in f.c for a in sub.c):
                r = sub - f
                for g in facts:
                    g = self.subst(g)
                    if any(a in g.c for a in r.c) and ok(r - g):
                        return True
        return False

    def subst(self, e):
        """replace the atoms which are known to be constants"""
        eqs = self.equalities()
        if not any(a in eqs for a in e.c):
            if not any("*" in a for a in e.c):
                return e
        r = Lin(k=e.k)
        for a, c in e.c.items():
            t = Lin(k=1)
            for p in a.split("*"):
                t = lmul(t, eqs.get(p, A(p)))
            r = r + t.times(c)
        return r

    def equalities(self):
        eqs, lows = {}, {}
        for f in self.st.facts:
            if len(f.c) == 1:
                (a, c), = f.c.items()
                if c == 1:
                    lows[a] = max(lows.get(a, -10**9), -f.k)
        for f in self.st.facts:
            if len(f.c) == 1:
                (a, c), = f.c.items()
                if c == -1 and lows.get(a) == f.k:
                    eqs[a] = Lin(k=f.k)
        return eqs

    def same(self, a, b):
        """True, False or None"""
        if a is None or b is None:
            return None
        d = self.subst(a - b)
        if not d.c:
            return d.k == 0
        if self.ge(d) and self.ge(-d):
            return True
        if self.ge(d - 1) or self.ge(-d - 1):
            return False
        return None

    # ------------------------------------------------------------------ joins
    def join(self, a, b):
        if a is b:
            return a
        if a is None or b is None:
            v = a if b is None else b
            return v.but(may=True)
        x, rows, mix = a.x or b.x, a.rows | b.rows, a.mix | b.mix
        may = a.may or b.may
        com = dict(x=x, rows=rows, mix=mix, may=may, pos=a.pos or b.pos)
        if a.k == b.k:
            if a.k == "arr":
                if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
                    sh = tuple(p if self.same(p, q) else None for p, q in zip(a.shape, b.shape))
                else:
                    sh = None
                return V("arr", shape=sh, isbool=a.isbool and b.isbool, **com)
            if a.k == "num":
                lin = a.lin if a.lin is not None and b.lin is not None and self.same(a.lin, b.lin) else None
                return V("num", lin=lin, const=a.const if a.const == b.const and type(a.const) is type(b.const) else None, **com)
            if a.k == "list":
                if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                    return seq([self.join(p, q) for p, q in zip(a.items, b.items)], **com)
                el = None
                for p in parts(a) + parts(b):
                    el = p if el is None else self.join(el, p)
                return seq(None, el, a.length if a.length is not None and self.same(a.length, b.length) else None, **com)
            if a.k in ("obj", "func", "cls", "dict", "mod", "ext", "bound") and a.obj == b.obj:
                return a.but(**com)
            if a.k == "none":
                return a
            if a.k == "str" and a.const == b.const:
                return a
        ks = {a.k, b.k}
        x2, r2, m2 = taint([a, b])
        com.update(x=x2, rows=r2, mix=m2)
        if ks == {"arr", "num"}:
            # a sum that begins with a number
            return V("arr", shape=(a if a.k == "arr" else b).shape, **com)
        return V("unk", **com)

    def joinst(self, a, b):
        s = State()
        s.facts = [f for f in a.facts if any(f is g or f == g for g in b.facts)]
        s.ctl = a.ctl | b.ctl
        for n in set(a.env) | set(b.env):
            p, q = a.env.get(n), b.env.get(n)
            s.env[n] = self.join(p, q)
        for o in set(a.heap.d) | set(b.heap.d):
            p, q = a.heap.d.get(o), b.heap.d.get(o)
            if p is None or q is None:
                s.heap.d[o] = dict(p if q is None else q)
                continue
            s.heap.d[o] = {n: self.join(p.get(n), q.get(n)) for n in set(p) | set(q)}
        return s

    # ------------------------------------------------------------------ heap
    def newobj(self, cls, attrs=None, kind="obj"):
        oid = self.new(kind)
        self.st.heap.d[oid] = dict(attrs or {})
        return V(kind, obj=(oid, cls))

    def getattr(self, v, name, node):
        oid, cls = v.obj
        d = self.st.heap.d.setdefault(oid, {})
        if name in d:
            return d[name]
        if name == "__class__":
            return V("cls", obj=cls) if cls is not None else UNK
        if cls == "problem":
            if name in ("n_var", "n_obj", "n_ieq_constr", "n_eq_constr"):
                d[name] = num(A(f"{oid}.{name}"))
                return d[name]
            if name in ("xl", "xu"):
                return arr(self.getattr(v, "n_var", node).lin)
            return V("bound", obj=(v, name))
        if isinstance(cls, Class):
            m = cls.lookup(name)
            if isinstance(m, Func):
                decs = m.decorator_names()
                if any(x.split(".")[-1] in ("property", "cached_property", "LazyAttribute") for x in decs):
                    return self.inline(m, {m.args[0]: v} if m.args else {}, node, cls)
                return V("bound", obj=(v, m))
            a = cls.lookup_attr(name)
            if a is not None and not isinstance(a, Func):
                for c in cls.mro:
                    for s in (c.node.body if isinstance(c, Class) else ()):
                        if isinstance(s, (ast.Assign, ast.AnnAssign)):
                            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                            if any(isinstance(t, ast.Name) and t.id == name for t in ts) and s.value is not None:
                                return self.in_module(s.value, c.module)
        return V("unk", x=False, name=f"{oid}.{name}")

    def in_module(self, e, module):
        fr = Frame(None)
        fr.module = module
        self.frames.append(fr)
        env, self.st.env = self.st.env, {}
        self.depth += 1
        try:
            if self.depth > MAXDEPTH:
                return UNK
            return self.ev(e)
        finally:
            self.depth -= 1
            self.st.env = env
            self.frames.pop()

    def module(self):
        fr = self.frames[-1]
        return fr.func.module if fr.func is not None else fr.module

    # ------------------------------------------------------------------ calls of functions of the library
    def inline(self, f, env, node, cls=None):
        if self.depth >= MAXDEPTH or any(x in f.decorator_names() for x in ("abstractmethod", "contextmanager")):
            x, rows, mix = taint(env.values())
            return V("unk", x=x, rows=rows, mix=mix)
        if sum(1 for fr in self.frames if fr.func is f) > 3:
            x, rows, mix = taint(env.values())
            return V("unk", x=x, rows=rows, mix=mix)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in f.walk()):
            return UNK
        saved, ctl = self.st.env, self.st.ctl
        fr = Frame(f, cls)
        fr.closure = saved if f.parent is not None and any(x.func is f.parent for x in self.frames) else None
        e = dict(env)
        if fr.closure is not None:
            e = {**{k: v for k, v in saved.items() if k not in e}, **e}
        self.defaults(f, e)
        self.st.env = e
        self.frames.append(fr)
        self.depth += 1
        try:
            sig = self.block(f.body)
            outs = list(fr.returns)
            if sig is None:
                outs.append((self.st, NONE))
            elif sig[0] == "return":
                outs.append((self.st, sig[1]))
            if not outs:
                raise Stop()
            st, v = outs[0]
            for s2, v2 in outs[1:]:
                st, v = self.joinst(st, s2), self.join(v, v2)
            self.st = st
            self.st.env = saved
            self.st.ctl = ctl
            return v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.st.env = saved
            self.st.ctl = ctl

    def defaults(self, f, env):
        a = f.node.args
        if isinstance(f.node, ast.Lambda) or a is None:
            pass
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in env:
                env[p.arg] = self.in_module(d, f.module)
        for p in pos + a.kwonlyargs:
            env.setdefault(p.arg, UNK)
        if a.vararg is not None:
            env.setdefault(a.vararg.arg, seq([]))
        if a.kwarg is not None:
            env.setdefault(a.kwarg.arg, self.newobj(None, {}, "dict"))

    def bindcall(self, f, args, kws, first=None):
        """the environment of a call: args are values, kws a dict; None if it can not be bound"""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        vals = ([first] if first is not None else []) + list(args)
        for p, v in zip(pos, vals):
            env[p] = v
        rest = vals[len(pos):]
        if a.vararg is not None:
            env[a.vararg.arg] = seq(rest)
        extra = {}
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        if "**open" in kws:
            self.optional(f, env, kws, names)
        for k, v in kws.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.newobj(None, extra, "dict")
        return env

    def optional(self, f, env, kws, names):
        """further keywords may be given by the user"""

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            sig = self.stmt(s)
            if sig is not None:
                return sig
        return None

    def stmt(self, s):
        self.steps += 1
        if self.steps > 60000:
            raise GiveUp("too long")
        t = type(s)
        if t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value)
        elif t is ast.Assign:
            v = self.ctlmix(self.ev(s.value))
            for tg in s.targets:
                self.assign(tg, v, s)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ctlmix(self.ev(s.value)), s)
        elif t is ast.AugAssign:
            cur = self.ev(s.target)
            v = self.ev(s.value)
            if cur.k == "list" and isinstance(s.op, ast.Add):
                r = self.concat(cur, v)
            else:
                r = self.binop(s.op, cur, v, s)
                if cur.k == "arr" and r.k == "arr" and cur.shape is not None:
                    r = r.but(shape=cur.shape)
            self.assign(s.target, self.ctlmix(r), s)
        elif t is ast.Return:
            return ("return", self.ctlmix(self.ev(s.value)) if s.value is not None else NONE)
        elif t is ast.If:
            return self.branch(s.test, lambda: self.block(s.body), lambda: self.block(s.orelse), s)
        elif t in (ast.For, ast.AsyncFor):
            return self.loop(s)
        elif t is ast.While:
            return self.whileloop(s)
        elif t is ast.Raise:
            return ("raise",)
        elif t is ast.Assert:
            self.narrow(s.test, True)
        elif t is ast.Break:
            return ("break",)
        elif t is ast.Continue:
            return ("continue",)
        elif t in (ast.With, ast.AsyncWith):
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, V("unk", x=v.x, rows=v.rows, mix=v.mix), s)
            return self.block(s.body)
        elif t is ast.Try:
            sig = self.block(s.body)
            if sig is None:
                sig = self.block(s.orelse)
            if sig is None and s.finalbody:
                sig = self.block(s.finalbody)
            if sig == ("raise",):
                # what the handlers do is unknown
                for h in s.handlers:
                    return self.block(h.body)
            return sig
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            f = next((g for g in self.repo.funcs.values() if g.node is s), None)
            self.st.env[s.name] = V("func", obj=f) if f is not None else UNK
        elif t is ast.ClassDef:
            c = next((g for g in self.repo.classes.values() if g.node is s), None)
            self.st.env[s.name] = V("cls", obj=c) if c is not None else UNK
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    self.st.env.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    b = self.ev(tg.value)
                    if b.k == "dict":
                        i = self.ev(tg.slice)
                        if i.k == "str":
                            self.st.heap.d.get(b.obj[0], {}).pop(i.const, None)
        return None

    def ctlmix(self, v):
        c = self.st.ctl
        if not c or v.k in ("func", "cls", "obj", "dict", "str", "none", "mod", "ext", "bound"):
            return v
        if v.k == "arr" and v.shape is not None and any(isinstance(d, Lin) and any(a.startswith("sub#") for a in d.c) for d in v.shape):
            return v
        return v.but(mix=v.mix | c)

    def static_raise(self, body):
        return bool(body) and isinstance(body[-1], ast.Raise) or (len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and unparse(body[0].value.func).split(".")[-1] in ("warn", "print"))

    def branch(self, test, yes, no, s):
        d = self.truth(test)
        if d is True:
            self.narrow(test, True)
            return yes()
        if d is False:
            self.narrow(test, False)
            return no()
        c = d  # the value of the condition
        key = self.forkable(test, c)
        if key is None and getattr(self, "forkall", False) and isinstance(s, ast.If) and len(self.taken) < 6 and not any(fr.loops for fr in self.frames):
            key = unparse(test, 60)
        if key is not None:
            if self.decide(key):
                self.narrow(test, True)
                return yes()
            self.narrow(test, False)
            return no()
        mixed = c.mix if isinstance(c, V) else frozenset()
        if isinstance(s, ast.If) and self.static_raise(s.body) and not s.orelse:
            mixed = frozenset()
        st0 = self.st
        a = st0.copy()
        b = st0.copy()
        ctl = st0.ctl
        res = []
        for st, run, pol in ((a, yes, True), (b, no, False)):
            self.st = st
            self.st.ctl = ctl | mixed
            try:
                self.narrow(test, pol, soft=True)
                sig = run()
            except Stop:
                sig = ("raise",)
            self.st.ctl = ctl
            res.append((self.st, sig))
        return self.merge(res, ctl)

    def merge(self, res, ctl):
        fr = self.frames[-1]
        live = []
        for st, sig in res:
            if sig is None:
                live.append(st)
            elif sig[0] == "raise":
                continue
            elif sig[0] == "return":
                fr.returns.append((st, sig[1]))
            elif fr.loops:
                fr.loops[-1].append(st)
        if not live:
            # all the branches leave: the recorded returns stand for them
            self.st = res[0][0].copy()
            return ("raise",)
        st = live[0]
        for o in live[1:]:
            st = self.joinst(st, o)
        self.st = st
        return None

    # the truth of a condition: True, False or its value
    def truth(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.truth(t.operand)
            return (not r) if isinstance(r, bool) else r
        if isinstance(t, ast.BoolOp):
            rs = []
            for v in t.values:
                r = self.truth(v)
                if isinstance(r, bool):
                    if r != isinstance(t.op, ast.And):
                        return r
                else:
                    rs.append(r)
            if not rs:
                return isinstance(t.op, ast.And)
            if len(rs) == 1:
                return rs[0]
            x, rows, mix = taint(rs)
            return V("num", x=x, rows=rows, mix=mix, anyall=True)
        v = self.ev(t)
        return self.truthval(v)

    def truthval(self, v):
        if v.k == "none":
            return False
        if v.k == "num":
            if v.const is not None:
                return bool(v.const)
            if v.lin is not None and not v.lin.c:
                return bool(v.lin.k)
            if v.lin is not None and self.ge(v.lin - 1):
                return True
            return v
        if v.k == "str" and v.const is not None:
            return bool(v.const)
        if v.k == "list":
            if v.items is not None:
                return bool(v.items)
            return v
        if v.k in ("func", "cls", "obj", "mod", "bound"):
            return True
        if v.k == "dict":
            return v
        return v

    def param_only(self, lin):
        return all(not p.startswith(("it#", "dim#", "unk#")) and p != N and not p.startswith("sub#") for a in lin.c for p in a.split("*"))

    def forkable(self, t, v):
        """a key if both outcomes of the condition should be explored separately"""
        if self.inloop:
            return None
        if isinstance(v, V) and (v.x or v.mix or v.rows):
            return None
        cmp = self.linear(t)
        if cmp is not None and self.param_only(cmp[0]):
            return f"{cmp[0]} {cmp[1]}"
        if isinstance(v, V) and v.k in ("num", "unk") and v.name is not None:
            return "truth " + str(v.name)
        if isinstance(v, V) and v.k == "num" and v.lin is not None and self.param_only(v.lin):
            return f"truth {v.lin}"
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            k = self.forkable(t.operand, v)
            return None if k is None else "not " + k
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(v, V) and not v.x:
            l, r = self.ev(t.left), self.ev(t.comparators[0])
            if l.name is not None and (r.k in ("str", "none") or r.const is not None):
                return f"{l.name} {type(t.ops[0]).__name__} {r.const}"
        return None

    def linear(self, t):
        """(lin, op) for a comparison of linear expressions: lin op 0"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq):
            a, b = self.ev(t.left), self.ev(t.comparators[0])
            if a.k == "num" and b.k == "num" and a.lin is not None and b.lin is not None:
                return a.lin - b.lin, type(t.ops[0]).__name__
        return None

    def narrow(self, t, pol, soft=False):
        """what is known after the condition was true / false"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, not pol, soft)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == pol:
                for v in t.values:
                    self.narrow(v, pol, soft)
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 2 and pol:
            self.narrow(ast.copy_location(ast.Compare(t.left, [t.ops[0]], [t.comparators[0]]), t), True, soft)
            self.narrow(ast.copy_location(ast.Compare(t.comparators[0], [t.ops[1]], [t.comparators[1]]), t), True, soft)
            return
        if isinstance(t, ast.Name):
            v = self.st.env.get(t.id)
            if v is not None and v.k == "num" and v.lin is not None and not pol:
                self.st.facts += [v.lin, -v.lin]
            return
        try:
            c = self.linear(t)
        except Stop:
            return
        if c is None:
            # the identity of an optional value
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                isnone = isinstance(t.ops[0], ast.Is) == pol
                v = self.st.env.get(t.left.id)
                if v is not None and v.k == "unk" and isnone:
                    self.st.env[t.left.id] = NONE
            return
        e, op = c
        if not pol:
            op = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}[op]
        F = self.st.facts
        if op == "Eq":
            F += [e, -e]
        elif op == "Lt":
            F.append(-e - 1)
        elif op == "LtE":
            F.append(-e)
        elif op == "Gt":
            F.append(e - 1)
        elif op == "GtE":
            F.append(e)
        elif op == "NotEq":
            # a bound that is excluded moves
            if self.ge(e):
                F.append(e - 1)
            elif self.ge(-e):
                F.append(-e - 1)
            else:
                self.st.facts.append(Lin())
                self.conds.append((e, "ne"))

    # ------------------------------------------------------------------ loops
    def loop(self, s):
        it = self.ev(s.iter)
        return self.iterate(it, s.target, lambda: self.block(s.body), s, s.body, s.orelse)

    def elements(self, it):
        """known elements, or None"""
        if it.k == "list" and it.items is not None:
            return list(it.items)
        if it.k == "range":
            a, b, st = it.items
            if a.const is not None and b.const is not None and st.const:
                r = range(a.const, b.const, st.const)
                if len(r) <= 40:
                    return [num(const=i) for i in r]
            d = None
            if a.lin is not None and b.lin is not None and st.const == 1:
                d = self.subst(b.lin - a.lin)
            if d is not None and not d.c and isinstance(d.k, int) and 0 <= d.k <= 40:
                return [num(a.lin + i) for i in range(d.k)]
        if it.k == "arr" and it.shape and it.shape[0] is not None and not it.shape[0].c and it.shape[0].k <= 40:
            return [self.index1(it, num(const=i), None) for i in range(it.shape[0].k)]
        if it.k == "dict" and not it.may:
            d = self.st.heap.d.get(it.obj[0], {})
            return [V("str", const=k) for k in d]
        return None

    def iterate(self, it, target, body, s, stmts, orelse=()):
        fr = self.frames[-1]
        el = self.elements(it)
        if el is not None and (len(el) <= UNROLL or (it.k == "list" and len(el) <= 40)):
            for v in el:
                fr.loops.append([])
                self.assign(target, v, s)
                sig = body()
                pend = fr.loops.pop()
                if sig is not None and sig[0] == "break":
                    for p in pend:
                        self.st = self.joinst(self.st, p)
                    return None
                if sig is not None and sig[0] == "continue":
                    sig = None
                for p in pend:
                    self.st = self.joinst(self.st, p) if sig is None else p
                    sig = None
                if sig is not None:
                    return sig
            return self.block(orelse) if orelse else None
        count, item, facts, iv = self.abstract_item(it, s)

        def start():
            self.assign(target, item, s)
        return self.symbolic(count, facts, iv, start, body, s)

    def abstract_item(self, it, s):
        """(number of rounds or None, value of the loop variable, facts)"""
        i = self.new("it")
        I = A(i)
        if it.k == "range":
            a, b, st = it.items
            if a.lin is not None and b.lin is not None and st.const == 1:
                return b.lin - a.lin, num(I), [I - a.lin, b.lin - 1 - I], (I, a.lin)
            if a.lin is not None and b.lin is not None and st.const == -1:
                return a.lin - b.lin, num(I), [I - b.lin - 1, a.lin - I], (None, None)
            n = self.fresh("cnt", a.lin, b.lin, st.lin if st.lin is not None else unparse(s, 60)) if a.lin is not None and b.lin is not None else None
            return n, num(I), [], (None, None)
        if it.k == "enum":
            v = it.elem
            n = self.lengthof(v)
            return n, seq([num(I + it.const), self.itemof(v, I)]), [I] + ([n - 1 - I] if n is not None else []), (I, Lin())
        if it.k == "zip":
            n = None
            for v in it.items:
                m = self.lengthof(v)
                if m is not None:
                    n = m
            return n, seq([self.itemof(v, I) for v in it.items]), [I] + ([n - 1 - I] if n is not None else []), (I, Lin())
        n = self.lengthof(it)
        return n, self.itemof(it, I), [I] + ([n - 1 - I] if n is not None else []), (I, Lin())

    def lengthof(self, v):
        if v.k == "list":
            return v.length
        if v.k == "arr" and v.shape:
            return v.shape[0]
        if v.k == "range":
            a, b, st = v.items
            if a.lin is not None and b.lin is not None and st.const == 1:
                return b.lin - a.lin
        if v.k == "enum":
            return self.lengthof(v.elem)
        if v.k == "zip":
            return self.lengthof(v.items[0]) if v.items else Lin()
        return None

    def itemof(self, v, I):
        if v.k == "list":
            if v.items:
                r = v.items[0]
                for x in v.items[1:]:
                    r = self.join(r, x)
                return r
            return v.elem if v.elem is not None else V("unk", x=v.x, rows=v.rows, mix=v.mix)
        if v.k == "arr":
            return self.index1(v, num(I), None)
        if v.k == "range":
            a = v.items[0].lin
            return num(a + I) if a is not None and v.items[2].const == 1 else num(None)
        if v.k == "enum":
            return seq([num(I), self.itemof(v.elem, I)])
        if v.k == "zip":
            return seq([self.itemof(x, I) for x in v.items])
        return V("unk", x=v.x, rows=v.rows, mix=v.mix)

    def symbolic(self, count, facts, iv, start, body, s, collect=None):
        """a loop with an unknown number of rounds: the variables which change are generalised"""
        fr = self.frames[-1]
        I, first = iv
        done = (I - first) if I is not None and first is not None else None
        nissues = len(self.issues)
        entry = self.st
        head = entry.copy()
        growth = {}
        self.inloop += 1
        try:
            for turn in range(4):
                del self.issues[nissues:]
                self.st = head.copy()
                self.st.facts += facts
                fr.loops.append([])
                start()
                sig = body()
                pend = fr.loops.pop()
                after = None if sig is not None and sig[0] in ("return", "raise", "break") else self.st
                if sig is not None and sig[0] == "return":
                    fr.returns.append((self.st, sig[1]))
                if sig is not None and sig[0] == "break":
                    pend.append(self.st)
                for p in pend:
                    after = p if after is None else self.joinst(after, p)
                if after is None:
                    self.st = entry
                    return None
                nxt, stable = self.generalise(entry, head, after, done, growth, turn, self.where(s))
                head = nxt
                if stable:
                    break
        finally:
            self.inloop -= 1
        out = head.copy()
        out.facts = list(entry.facts)
        out.ctl = entry.ctl
        gone = set(I.c) if I is not None else set()
        w = self.where(s)

        def close(v, key):
            if v is None:
                return v
            g = growth.get(key)
            if g is not None and v.k in ("list", "num"):
                l0, d = g
                total = None
                if d is not None and count is not None:
                    total = l0 + lmul(d, count)
                if v.k == "list" and d is not None and d == Lin(k=1) and count is not None and batch(count) and l0 == Lin() and v.elem is not None:
                    v = v.but(elem=self.strip(v.elem, gone))
                v = v.but(length=total) if v.k == "list" else v.but(lin=total, const=None)
            return self.leave(v, gone, w)
        for n in list(out.env):
            out.env[n] = close(out.env[n], ("env", n))
        for o, d in out.heap.d.items():
            for n in list(d):
                d[n] = close(d[n], (o, n))
        self.st = out
        return None

    def strip(self, v, gone, depth=0):
        """one element for each row of the batch: it depends on its own row"""
        if v is None or depth > 6:
            return v
        k = {"rows": frozenset(r for r in v.rows if not (isinstance(r, Lin) and self.uses(r, gone)))}
        if v.k == "list":
            if v.items is not None:
                k["items"] = [self.strip(x, gone, depth + 1) for x in v.items]
            elif v.elem is not None:
                k["elem"] = self.strip(v.elem, gone, depth + 1)
        return v.but(**k)

    def leave(self, v, gone, w, depth=0):
        """the value after the loop whose variable is gone"""
        if v is None or depth > 6:
            return v
        k = {}
        if v.rows and any(any(p in gone for a in r.c for p in a.split("*")) for r in v.rows if isinstance(r, Lin)):
            k["rows"] = frozenset(r for r in v.rows if not (isinstance(r, Lin) and any(p in gone for a in r.c for p in a.split("*"))))
            k["mix"] = v.mix | {w}
        if v.k == "list":
            if v.items is not None:
                k["items"] = [self.leave(x, gone, w, depth + 1) for x in v.items]
            elif v.elem is not None:
                k["elem"] = self.leave(v.elem, gone, w, depth + 1)
            if v.length is not None and self.uses(v.length, gone):
                k["length"] = None
        if v.k == "arr" and v.shape is not None and any(d is not None and self.uses(d, gone) for d in v.shape):
            k["shape"] = tuple(None if d is not None and self.uses(d, gone) else d for d in v.shape)
        if v.k == "num" and v.lin is not None and self.uses(v.lin, gone):
            k["lin"] = None
        return v.but(**k) if k else v

    def uses(self, lin, gone):
        return any(p in gone for a in lin.c for p in a.split("*"))

    def generalise(self, entry, head, after, done, growth, turn, w=None):
        """the state at the beginning of any round"""
        nxt = entry.copy()
        stable = True
        gone = set(done.c) if done is not None else set()

        def one(key, e, h, a):
            nonlocal stable
            if a is None:
                return h
            if gone and a.k in ("num", "arr", "unk") and a.rows and any(isinstance(r, Lin) and self.uses(r, gone) for r in a.rows):
                # the next round sees what an earlier row has left
                a = a.but(rows=frozenset(r for r in a.rows if not (isinstance(r, Lin) and self.uses(r, gone))), mix=a.mix | {w})
            if e is None:
                # first set inside of the loop
                if h is None:
                    stable = False
                    return a
                j = self.join(h, a)
                if not self.eq(j, h):
                    stable = False
                return j
            if h is a:
                return h
            if a.k == "list" and e.k == "list" and (a.items is None or e.items is None or len(a.items) != len(e.items) or key in growth):
                el = None
                for p in parts(e) + parts(h) + parts(a):
                    el = p if el is None else self.join(el, p)
                d = a.length - h.length if a.length is not None and h.length is not None else None
                if d is not None and self.uses(d, gone):
                    d = None
                if key not in growth:
                    growth[key] = (e.length, d) if d is not None and e.length is not None else (None, None)
                    stable = False
                elif growth[key][1] is not None and growth[key][1] != d:
                    growth[key] = (None, None)
                    stable = False
                l0, d = growth[key]
                ln = l0 + lmul(d, done) if d is not None and done is not None else None
                x, rows, mix = taint([h, a])
                v = seq(None, el, ln, x=x, rows=h.rows | a.rows, mix=h.mix | a.mix)
                if not self.eq(v, h):
                    stable = False
                return v
            if a.k == "num" and e.k == "num" and (key in growth or not self.same(a.lin, e.lin)):
                d = a.lin - h.lin if a.lin is not None and h.lin is not None else None
                if d is not None and self.uses(d, gone):
                    d = None
                if key not in growth:
                    growth[key] = (e.lin, d) if d is not None and e.lin is not None else (None, None)
                    stable = False
                elif growth[key][1] is not None and growth[key][1] != d:
                    growth[key] = (None, None)
                    stable = False
                l0, d = growth[key]
                ln = l0 + lmul(d, done) if d is not None and done is not None else None
                v = V("num", lin=ln, x=h.x or a.x, rows=h.rows | a.rows, mix=h.mix | a.mix, may=h.may or a.may)
                if not self.eq(v, h):
                    stable = False
                return v
            j = self.join(h, a)
            if not self.eq(j, h):
                stable = False
            return j
        for n in set(head.env) | set(after.env):
            v = one(("env", n), entry.env.get(n), head.env.get(n), after.env.get(n))
            if v is not None:
                nxt.env[n] = v
        for o in set(head.heap.d) | set(after.heap.d):
            e, h, a = entry.heap.d.get(o), head.heap.d.get(o), after.heap.d.get(o)
            if a is None:
                nxt.heap.d[o] = dict(h)
                continue
            if h is None:
                nxt.heap.d[o] = dict(a)
                continue
            nxt.heap.d[o] = {}
            for n in set(h) | set(a):
                v = one((o, n), (e or {}).get(n), h.get(n), a.get(n))
                if v is not None:
                    nxt.heap.d[o][n] = v
        return nxt, stable

    def eq(self, a, b, depth=0):
        if a is b:
            return True
        if a is None or b is None or depth > 6:
            return False
        if a.k != b.k or a.x != b.x or a.rows != b.rows or a.mix != b.mix or a.may != b.may:
            return False
        if a.k == "arr":
            return a.shape == b.shape
        if a.k == "num":
            return a.lin == b.lin and a.const == b.const
        if a.k == "list":
            if (a.items is None) != (b.items is None) or a.length != b.length:
                return False
            if a.items is not None:
                return len(a.items) == len(b.items) and all(self.eq(p, q, depth + 1) for p, q in zip(a.items, b.items))
            return (a.elem is None and b.elem is None) or self.eq(a.elem, b.elem, depth + 1)
        if a.k in ("obj", "dict", "func", "cls", "bound"):
            return a.obj == b.obj or a.k == "bound"
        return True

    def whileloop(self, s):
        # a loop that certainly ends after some rounds is not unrolled: the number of rounds is unknown
        t = self.truth(s.test)
        if t is False:
            return None

        def body():
            self.truth(s.test)
            return self.block(s.body)
        return self.symbolic(None, [], (None, None), lambda: None, body, s)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, s):
        st = self.st
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if v.k == "list" and v.items is not None and len(v.items) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v.items):
                    self.assign(e, x, s)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, V("unk", x=v.x, rows=v.rows, mix=v.mix), s)
                    elif v.k == "arr":
                        self.assign(e, self.index1(v, num(const=i), s), s)
                    elif v.k == "list" and v.elem is not None:
                        self.assign(e, v.elem, s)
                    else:
                        x, rows, mix = taint([v])
                        self.assign(e, V("unk", x=x, rows=rows, mix=mix), s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if b.k in ("obj", "dict"):
                cls = b.obj[1]
                if isinstance(cls, Class) and t.attr not in st.heap.d.get(b.obj[0], {}):
                    setter = self.setter(cls, t.attr)
                    if setter is not None:
                        self.inline(setter, dict(zip(setter.args, [b, v])), s, cls)
                        return
                st.heap.d.setdefault(b.obj[0], {})[t.attr] = v
        elif isinstance(t, ast.Subscript):
            self.store(t, v, s)

    def setter(self, cls, name):
        for c in cls.mro:
            for n in (c.node.body if isinstance(c, Class) else ()):
                if isinstance(n, ast.FunctionDef) and n.name == name and any(unparse(d).endswith(".setter") for d in n.decorator_list):
                    return next((g for g in self.repo.funcs.values() if g.node is n), None)
        return None

    def update(self, t, v, s):
        """write back the changed value of an expression"""
        if isinstance(t, (ast.Name, ast.Attribute)):
            self.assign(t, v, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            if b.k == "dict":
                i = self.ev(t.slice)
                if i.k == "str" and i.const is not None:
                    self.st.heap.d.setdefault(b.obj[0], {})[i.const] = v
            elif b.k == "list":
                i = self.ev(t.slice)
                if b.items is not None and i.k == "num" and isinstance(i.const, int) and -len(b.items) <= i.const < len(b.items):
                    items = list(b.items)
                    items[i.const] = v
                    self.update(t.value, b.but(items=items), s)

    def store(self, t, v, s):
        b = self.ev(t.value)
        if b.k == "dict":
            i = self.ev(t.slice)
            if i.k == "str" and i.const is not None:
                self.st.heap.d.setdefault(b.obj[0], {})[i.const] = v
            else:
                self.st.heap.d.setdefault(b.obj[0], {})["**open"] = v
            return
        if b.k == "list":
            i = self.ev(t.slice)
            if b.items is not None and i.k == "num" and isinstance(i.const, int) and -len(b.items) <= i.const < len(b.items):
                items = list(b.items)
                items[i.const] = v
                self.update(t.value, b.but(items=items), s)
            elif b.items is None or True:
                el = v
                for p in parts(b):
                    el = self.join(el, p)
                self.update(t.value, seq(None, el, b.length), s)
            return
        if b.k != "arr":
            if b.k == "unk":
                x, rows, mix = taint([v])
                self.update(t.value, b.but(x=b.x or x, rows=b.rows | rows, mix=b.mix | mix), s)
            return
        idx = self.indices(t.slice)
        x, rows, mix = taint([v])
        sub, used = self.subshape(b, idx, t, quiet=True)
        # the rows which are written to
        rows = frozenset(r for r in rows if not any(isinstance(u, Lin) and isinstance(r, Lin) and (u - r) == Lin() for u in used))
        if sub is not None and v.k == "arr" and v.shape is not None and (x or v.pos):
            full, bad = self.bcast([sub, v.shape], [True, x])
            bad = None if isinstance(bad, tuple) else bad
            if bad is not None and batchy(sub):
                mix = mix | {self.where(s)}
        ix, irows, imix = taint([i[1] for i in idx if i[0] == "v"])
        self.update(t.value, b.but(x=b.x or x, rows=b.rows | rows, mix=b.mix | mix | imix, ident=None, isbool=False), s)

    # ------------------------------------------------------------------ shapes
    def bcast(self, shapes, xs):
        """(shape or None, what is wrong)"""
        if any(s is None for s in shapes):
            return None, None
        n = max(len(s) for s in shapes)
        out, bad = [], None
        for i in range(n):
            cur, curx = Lin(k=1), False
            for s, x in zip(shapes, xs):
                j = i - (n - len(s))
                if j < 0:
                    continue
                d = s[j]
                if d is None:
                    cur = None if cur is None or cur == Lin(k=1) else cur
                    if cur is None:
                        pass
                    curx = curx or x
                    continue
                if d == Lin(k=1):
                    continue
                if cur is None:
                    cur, curx = d, x
                    continue
                if cur == Lin(k=1):
                    cur, curx = d, x
                    continue
                if self.same(cur, d):
                    continue
                if batch(cur) != batch(d) and (x or curx):
                    bad = "misaligned"
                    cur = None
                    continue
                if bad is None and self.declared_size(cur) and self.declared_size(d) and not self.onesize(cur) and not self.onesize(d):
                    bad = ("misfit", cur, d)
                cur = None
            out.append(cur)
        if sum(1 for d in out if d is not None and batch(d)) > 1:
            k = sum(1 for s, x in zip(shapes, xs) if x and any(d is not None and batch(d) for d in s))
            if k >= 1 and not any(x and sum(1 for d in s if d is not None and batch(d)) > 1 for s, x in zip(shapes, xs)):
                bad = "outer"
        return tuple(out), bad

    def declared_size(self, d):
        """a number of what the constructor was given, not of something counted on the way"""
        return all(a == "n_var" or not ("#" in a or a.startswith("dim") or a == N) for a in self.subst(d).c)

    def onesize(self, d):
        d = self.subst(d)
        return not d.c and d.k == 1

    def shape_of(self, v):
        if v.k == "arr":
            return v.shape
        if v.k == "num":
            return ()
        if v.k == "list":
            return self.toarray(v).shape
        return None

    def toarray(self, v, axis=0):
        """np.array(v)"""
        if v.k == "arr":
            return v
        x, rows, mix = taint([v])
        com = dict(x=x, rows=rows, mix=mix)
        if v.k == "num":
            return V("arr", shape=(), **com)
        if v.k == "range":
            n = self.lengthof(v)
            return V("arr", shape=(n,), pos=n is not None and has_batch(n), **com)
        if v.k == "list":
            ps = parts(v)
            if not ps:
                return V("arr", shape=(v.length,), **com)
            shs = [self.shape_of(p) for p in ps]
            if any(s is None for s in shs) or len({len(s) for s in shs}) > 1:
                return V("arr", shape=None, **com)
            first = list(shs[0])
            for s in shs[1:]:
                first = [a if self.same(a, b) else None for a, b in zip(first, s)]
            return V("arr", shape=(v.length,) + tuple(first), **com)
        return V("arr", shape=None, **com) if v.k == "unk" else V("unk", **com)

    def indices(self, sl):
        """the parts of a subscript: ('s', lower, upper, step), ('new',), ('dots',), ('v', value)"""
        out = []
        for e in (sl.elts if isinstance(sl, ast.Tuple) else [sl]):
            if isinstance(e, ast.Slice):
                out.append(("s",) + tuple(self.ev(p) if p is not None else None for p in (e.lower, e.upper, e.step)))
            elif isinstance(e, ast.Constant) and e.value is Ellipsis:
                out.append(("dots",))
            else:
                v = self.ev(e)
                if v.k == "none":
                    out.append(("new",))
                elif v.k == "list" and v.items is not None and isinstance(e, ast.Name) and any(p.k in ("slice", "none") for p in v.items):
                    return [("v", UNK)]
                elif v.k == "slice":
                    out.append(("s",) + tuple(v.items))
                else:
                    out.append(("v", v))
        return out

    def slicelen(self, d, lo, up, step):
        def val(v):
            return v.lin if v is not None and v.k == "num" else None
        full = lambda v: v is None or v.k == "none"
        if full(lo) and full(up) and full(step):
            return d
        if not full(step):
            c = step.const
            if full(lo) and full(up) and c == -1:
                return d
            if not isinstance(c, int) or c == 0:
                return None
            base = self.slicelen(d, lo, up, None) if c > 0 else None
            if base is None:
                return None
            return self.ceildiv(base, c)
        if d is None:
            if (full(lo)) and val(up) is not None and not full(up):
                u = val(up)
                return u if self.ge(u) or u.c else None
            return None
        a, b = Lin(), d
        if not full(lo):
            a = val(lo)
            if a is None:
                return None
            if self.negative(a):
                a = d + a
        if not full(up):
            b = val(up)
            if b is None:
                return None
            if self.negative(b):
                b = d + b
        n = b - a
        sn = self.subst(n)
        # the bounds are cut off at the ends
        if not sn.c and sn.k < 0:
            return Lin()
        if not d.c and not self.subst(b).c and self.subst(b).k > d.k and not self.subst(a).c:
            return Lin(k=max(0, d.k - self.subst(a).k))
        return n

    def negative(self, a):
        s = self.subst(a)
        if not s.c:
            return s.k < 0
        return s.k <= 0 and all(c < 0 for c in s.c.values())

    def ceildiv(self, e, c):
        if c == 1:
            return e
        if all(isinstance(x, int) and x % c == 0 for x in e.c.values()) and isinstance(e.k, int):
            return Lin({a: x // c for a, x in e.c.items()}, -((-e.k) // c))
        return self.fresh("dim", "ceil", e, c)

    def subshape(self, b, idx, node, quiet=False):
        """(shape of b[idx] or None, the rows of the batch that are picked)"""
        sh = b.shape
        if sh is None:
            return None, []
        n = sum(1 for i in idx if i[0] in ("s", "v"))
        for i in idx:
            if i[0] == "v" and i[1].k == "arr" and i[1].isbool and i[1].shape is not None:
                if not i[1].shape:
                    return None, []
                n += len(i[1].shape) - 1
        if not any(i[0] == "dots" for i in idx):
            idx = idx + [("dots",)]
        out, used, pos = [], [], 0
        fancy, fpos = [], None
        for i in idx:
            if i[0] == "new":
                out.append(Lin(k=1))
                continue
            if i[0] == "dots":
                k = len(sh) - n
                if k < 0:
                    return None, used
                out += list(sh[pos:pos + k])
                pos += k
                continue
            if pos >= len(sh):
                return None, used
            d = sh[pos]
            if i[0] == "s":
                m = self.slicelen(d, i[1], i[2], i[3])
                if d is not None and batch(d) and not (m is not None and m == d and all(p is None or p.k == "none" for p in i[1:])):
                    used.append("slice")
                out.append(m)
                pos += 1
                continue
            v = i[1]
            if v.k == "num":
                if d is not None and batch(d):
                    used.append(v.lin if v.lin is not None else "some")
                pos += 1
                continue
            va = self.toarray(v) if v.k in ("list", "range") else v
            if va.k != "arr" or va.shape is None:
                return None, used + (["fancy"] if d is not None and batch(d) and not va.pos else [])
            if va.isbool:
                if len(va.shape) == 1:
                    if d is not None and has_batch(d):
                        m = self.masked(va)
                    else:
                        m = self.fresh("dim", "mask", id(va) if va.ident is None else va.ident)
                    if fpos is None:
                        fpos = len(out)
                        out.append(m)
                    pos += 1
                else:
                    pos += len(va.shape)
                    if fpos is None:
                        fpos = len(out)
                        out.append(None)
                continue
            if d is not None and batch(d) and not va.pos:
                used.append("fancy")
            if fpos is None:
                fpos = len(out)
                out += list(va.shape)
                fancy = va.shape
            pos += 1
        return tuple(out), used

    def masked(self, m):
        if m.ident is None:
            m.ident = self.new("m")
        return self.fresh("sub", m.ident)

    def index1(self, v, i, node):
        return self.subscript_value(v, [("v", i)], node)

    def subscript_value(self, v, idx, node):
        if v.k == "arr":
            sh, used = self.subshape(v, idx, node)
            x, rows, mix = taint([i[1] for i in idx if i[0] == "v"])
            rows |= v.rows
            mix = mix | v.mix
            if v.x:
                for u in used:
                    if isinstance(u, Lin):
                        rows |= {u}
                    elif u in ("slice", "fancy", "some") and node is not None:
                        mix = mix | {self.where(node)}
            x = x or v.x
            pos = v.pos and sh is not None and any(d is not None and has_batch(d) for d in sh)
            if sh == ():
                return V("num", x=x, rows=rows, mix=mix, name=None)
            return V("arr", shape=sh, x=x, rows=rows, mix=mix, pos=pos, isbool=v.isbool)
        if v.k == "list" and len(idx) == 1:
            i = idx[0]
            if i[0] == "v" and i[1].k == "num":
                c = i[1].const
                if v.items is not None and isinstance(c, int) and not isinstance(c, bool) and -len(v.items) <= c < len(v.items):
                    return v.items[c]
                ps = parts(v)
                if ps:
                    r = ps[0]
                    for p in ps[1:]:
                        r = self.join(r, p)
                    return r
            if i[0] == "s" and i[3] is None:
                if v.items is not None:
                    a = i[1].const if i[1] is not None and i[1].k == "num" else (None if i[1] is None else "?")
                    b = i[2].const if i[2] is not None and i[2].k == "num" else (None if i[2] is None else "?")
                    if (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)) and not (i[1] is not None and a is None) and not (i[2] is not None and b is None):
                        return seq(v.items[a:b])
                ps = parts(v)
                el = None
                for p in ps:
                    el = p if el is None else self.join(el, p)
                return seq(None, el, self.slicelen(v.length, i[1], i[2], None) if v.length is not None else None)
        x, rows, mix = taint([v] + [i[1] for i in idx if i[0] == "v"])
        return V("unk", x=x, rows=rows, mix=mix)


DRAWS = {"random", "random_sample", "uniform", "normal", "integers", "randint", "rand", "randn"}


def batchy(sh):
    return sh is not None and any(d is not None and has_batch(d) for d in sh)


class Numpy(Shapes):
    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            vs = [self.ev(c) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            x, rows, mix = taint(vs)
            return V("unk", x=x, rows=rows, mix=mix)
        return m(e)

    def x_Constant(self, e):
        c = e.value
        if c is None:
            return NONE
        if isinstance(c, bool):
            return V("num", const=c)
        if isinstance(c, int):
            return num(const=c)
        if isinstance(c, float):
            return V("num", lin=Lin(k=int(c)) if c == int(c) and abs(c) < 1e6 else None, const=None) if c == c and abs(c) < 1e15 else V("num")
        if isinstance(c, str):
            return V("str", const=c)
        return UNK

    def x_Name(self, e):
        v = self.st.env.get(e.id)
        if v is not None:
            return v
        fr = self.frames[-1]
        r = self.repo.resolve(e, self.module(), fr.func)
        return self.global_value(r)

    def global_value(self, r):
        if isinstance(r, Func):
            return V("func", obj=r)
        if isinstance(r, Class):
            return V("cls", obj=r)
        if isinstance(r, Ext):
            return self.extvalue(r.path)
        if isinstance(r, ModRef):
            return V("mod", obj=r.name)
        if isinstance(r, Var):
            key = (r.module.name, r.name)
            if key not in self.memo:
                self.memo[key] = UNK
                n = r.node
                val = getattr(n, "value", None)
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and val is not None and not (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)):
                    self.memo[key] = self.in_module(val, r.module)
                elif isinstance(n, ast.expr):
                    self.memo[key] = self.in_module(n, r.module)
            return self.memo[key]
        return UNK

    def extvalue(self, path):
        nm = libname(path)
        if nm in ("pi", "e", "inf", "nan", "euler_gamma", "Inf", "infty"):
            return V("num")
        if nm == "newaxis":
            return NONE
        return V("ext", obj=path)

    def x_Attribute(self, e):
        r = None
        b = e.value
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(b, ast.Name) and b.id not in self.st.env:
            # the backend of the gradients is looked up lazily and stands for numpy
            m = self.repo.resolve(e.value, self.module(), self.frames[-1].func)
            if isinstance(m, ModRef) and m.name == "pymoo.gradient.toolbox":
                return self.extvalue("numpy." + e.attr)
            r = self.repo.resolve(e, self.module(), self.frames[-1].func)
            if r is not None and not (isinstance(m, Class)):
                return self.global_value(r)
        v = self.ev(e.value)
        return self.attribute(v, e.attr, e)

    def attribute(self, v, name, e):
        if v.k in ("unk", "none") and name in DRAWS and v.obj is None:
            return V("bound", obj=(v, name))
        if v.k == "mod":
            return self.global_value(self.repo.lookup_global(v.obj, name)) if v.obj != "pymoo.gradient.toolbox" else self.extvalue("numpy." + name)
        if v.k == "ext":
            return self.extvalue(v.obj + "." + name)
        if v.k == "obj":
            return self.getattr(v, name, e)
        if v.k == "cls" and isinstance(v.obj, Class):
            m = v.obj.lookup_attr(name)
            if isinstance(m, Func):
                return V("func", obj=m)
            if name == "__name__":
                return V("str")
            return UNK
        if v.k in ("num", "list") and name in ("shape", "T", "ndim", "size", "real", "imag"):
            if v.k == "num":
                return v if name in ("T", "real", "imag") else UNK
            v = self.toarray(v)
        if v.k == "arr":
            sh = v.shape
            if name == "shape":
                if sh is None:
                    return V("list", x=False)
                return seq([num(d) if d is not None else V("num") for d in sh])
            if name == "T":
                return v.but(shape=tuple(reversed(sh)) if sh is not None else None, ident=None)
            if name == "ndim":
                return num(const=len(sh)) if sh is not None else V("num")
            if name == "size":
                return num(self.total(sh)) if sh is not None and self.total(sh) is not None else V("num")
            if name in ("real", "imag"):
                return v.but(ident=None)
            if name == "flat":
                return v.but(shape=(self.total(sh),) if sh is not None else None)
            return V("bound", obj=(v, name), base=e.value if isinstance(e, ast.Attribute) else None)
        if v.k in ("list", "dict", "str", "range"):
            return V("bound", obj=(v, name), base=e.value if isinstance(e, ast.Attribute) else None)
        if v.k == "bound" and v.name is None:
            return UNK
        if v.k == "unk":
            if name in ("shape", "dtype", "ndim", "size"):
                return V("unk", name=f"{v.name}.{name}" if v.name else None)
            return V("unk", x=v.x, rows=v.rows, mix=v.mix, name=f"{v.name}.{name}" if v.name else None)
        return UNK

    def total(self, sh):
        t = Lin(k=1)
        for d in sh:
            if d is None:
                return None
            t = lmul(t, d)
        return t

    def x_Tuple(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                el = self.elements(v)
                if el is None:
                    vs = [self.ev(y) if not isinstance(y, ast.Starred) else y for y in []]
                    el2 = None
                    for p in items + parts(v):
                        el2 = p if el2 is None else self.join(el2, p)
                    return seq(None, el2, None)
                items += el
            else:
                items.append(self.ev(x))
        return seq(items)

    x_List = x_Tuple
    x_Set = x_Tuple

    def x_Dict(self, e):
        d, vs = {}, []
        for k, v in zip(e.keys, e.values):
            val = self.ev(v)
            vs.append(val)
            if k is None:
                if val.k == "dict":
                    d.update(self.st.heap.d.get(val.obj[0], {}))
                continue
            kv = self.ev(k)
            if kv.k == "str" and kv.const is not None:
                d[kv.const] = val
            elif kv.k == "num" and isinstance(kv.const, int):
                d[kv.const] = val
        return self.newobj(None, d, "dict")

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def x_JoinedStr(self, e):
        return V("str")

    def x_Lambda(self, e):
        f = next((g for g in self.repo.funcs.values() if g.node is e), None)
        return V("lambda", obj=(e, dict(self.st.env), self.frames[-1].func))

    def x_Starred(self, e):
        return self.ev(e.value)

    def x_Slice(self, e):
        return V("slice", items=[self.ev(p) if p is not None else None for p in (e.lower, e.upper, e.step)])

    def x_IfExp(self, e):
        t = self.truth(e.test)
        if t is True:
            return self.ev(e.body)
        if t is False:
            return self.ev(e.orelse)
        key = self.forkable(e.test, t)
        if key is not None:
            d = self.decide(key)
            self.narrow(e.test, d)
            return self.ev(e.body if d else e.orelse)
        a, b = self.ev(e.body), self.ev(e.orelse)
        v = self.join(a, b)
        if t.mix and v.k in ("num", "arr", "unk", "list"):
            v = v.but(mix=v.mix | t.mix)
        return v.but(x=v.x or t.x, rows=v.rows | t.rows) if v.k in ("num", "arr", "unk") else v

    def x_BoolOp(self, e):
        t = self.truth(e)
        if isinstance(t, bool) and all(isinstance(self.truth(v), bool) for v in e.values):
            r = None
            for v in e.values:
                r = self.ev(v)
                if self.truth(v) != isinstance(e.op, ast.And):
                    break
            return r
        if isinstance(e.op, ast.Or) and len(e.values) == 2:
            a = self.ev(e.values[0])
            if a.k == "none":
                return self.ev(e.values[1])
            return self.join(a, self.ev(e.values[1]))
        vs = [self.ev(v) for v in e.values]
        x, rows, mix = taint(vs)
        return V("num", const=t if isinstance(t, bool) else None, x=x, rows=rows, mix=mix)

    def x_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            t = self.truth(e.operand)
            if isinstance(t, bool):
                return V("num", const=not t)
            return V("num", x=t.x, rows=t.rows, mix=t.mix)
        v = self.ev(e.operand)
        if v.k == "num":
            if isinstance(e.op, ast.USub):
                if v.const is not None and not isinstance(v.const, bool):
                    return num(const=-v.const)
                return v.but(lin=-v.lin if v.lin is not None else None, const=None, name=None)
            return v.but(lin=None, const=None) if isinstance(e.op, ast.Invert) else v
        if v.k == "arr":
            r = v.but(ident=None)
            if isinstance(e.op, ast.Invert) and v.isbool:
                if v.ident is None:
                    v.ident = self.new("m")
                r.ident = "~" + v.ident if not v.ident.startswith("~") else v.ident[1:]
            return r
        return v

    def x_Compare(self, e):
        vs = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
        if len(vs) == 2:
            a, b, op = vs[0], vs[1], type(e.ops[0])
            if op in (ast.Is, ast.IsNot):
                if b.k == "none" or a.k == "none":
                    o = a if b.k == "none" else b
                    if o.k == "none":
                        return V("num", const=(op is ast.Is))
                    if o.k != "unk" and not o.may:
                        return V("num", const=(op is ast.IsNot))
                    if o.name and f"{o.name} is None" in self.known:
                        return V("num", const=self.known[f"{o.name} is None"] == (op is ast.Is))
                    return V("num", name=f"{o.name} is None" if o.name else None)
                return V("num", x=a.x or b.x)
            if op in (ast.In, ast.NotIn):
                if b.k == "dict" and a.k == "str" and a.const is not None and not b.may:
                    has = a.const in self.st.heap.d.get(b.obj[0], {})
                    return V("num", const=has == (op is ast.In))
                if b.k == "list" and b.items is not None and all(i.const is not None for i in b.items) and a.const is not None:
                    return V("num", const=(a.const in [i.const for i in b.items]) == (op is ast.In))
                x, rows, mix = taint(vs)
                return V("num", x=x, rows=rows, mix=mix)
            if a.k in ("str", "none") and b.k in ("str", "none") and (a.const is not None or a.k == "none") and (b.const is not None or b.k == "none") and op in (ast.Eq, ast.NotEq):
                return V("num", const=(a.const == b.const and a.k == b.k) == (op is ast.Eq))
            if a.k == "num" and b.k == "num":
                x, rows, mix = taint(vs)
                if a.lin is not None and b.lin is not None:
                    d = self.subst(a.lin - b.lin)
                    r = None
                    if op is ast.Eq:
                        r = self.same(a.lin, b.lin)
                    elif op is ast.NotEq:
                        r = self.same(a.lin, b.lin)
                        r = None if r is None else not r
                    elif op in (ast.Lt, ast.GtE):
                        r = True if self.ge(d) else (False if self.ge(-d - 1) else None)
                        r = None if r is None else r == (op is ast.GtE)
                    elif op in (ast.Gt, ast.LtE):
                        r = True if self.ge(d - 1) else (False if self.ge(-d) else None)
                        r = None if r is None else r == (op is ast.Gt)
                    for (c, _) in self.conds:
                        if op in (ast.Eq, ast.NotEq) and r is None and (c == d or c == -d):
                            r = op is ast.NotEq
                    if r is not None:
                        return V("num", const=r, x=x, rows=rows, mix=mix)
                    if has_batch(d):
                        mix = mix | {self.where(e)}         # a decision on how many solutions there are
                return V("num", x=x, rows=rows, mix=mix)
        if len(vs) == 3 and all(v.k == "num" and v.lin is not None for v in vs):
            a = self.x_Compare(ast.copy_location(ast.Compare(e.left, [e.ops[0]], [e.comparators[0]]), e))
            b = self.x_Compare(ast.copy_location(ast.Compare(e.comparators[0], [e.ops[1]], [e.comparators[1]]), e))
            if a.const is False or b.const is False:
                return V("num", const=False)
            if a.const is True and b.const is True:
                return V("num", const=True)
            return V("num")
        return self.elementwise(vs, e, isbool=True)

    def x_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)

    def concat(self, a, b):
        if b.k == "list" and a.items is not None and b.items is not None:
            return seq(list(a.items) + list(b.items))
        el = None
        for p in parts(a) + parts(b):
            el = p if el is None else self.join(el, p)
        n = a.length + self.lengthof(b) if a.length is not None and self.lengthof(b) is not None else None
        return seq(None, el, n)

    def binop(self, op, a, b, node):
        if a.k == "list" and b.k == "list" and isinstance(op, ast.Add):
            return self.concat(a, b)
        if isinstance(op, ast.Mult) and (a.k == "list" and b.k == "num" or a.k == "num" and b.k == "list"):
            l, n = (a, b) if a.k == "list" else (b, a)
            if l.items is not None and isinstance(n.const, int) and 0 <= n.const * len(l.items) <= 60:
                return seq(list(l.items) * n.const)
            el = None
            for p in parts(l):
                el = p if el is None else self.join(el, p)
            return seq(None, el, lmul(l.length, n.lin) if l.length is not None and n.lin is not None else None)
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b, node)
        if a.k == "str":
            return V("str")
        if a.k == "num" and b.k == "num":
            x, rows, mix = taint([a, b])
            lin, c = None, None
            p, q = a.lin, b.lin
            if p is not None and q is not None and not (isinstance(a.const, bool) or isinstance(b.const, bool)):
                if isinstance(op, ast.Add):
                    lin = p + q
                elif isinstance(op, ast.Sub):
                    lin = p - q
                elif isinstance(op, ast.Mult):
                    lin = lmul(p, q)
                elif isinstance(op, ast.FloorDiv):
                    q2 = self.subst(q)
                    if not q2.c and isinstance(q2.k, int) and q2.k:
                        p2 = self.subst(p)
                        if not p2.c:
                            lin = Lin(k=p2.k // q2.k)
                        elif all(isinstance(y, int) and y % q2.k == 0 for y in p2.c.values()):
                            lin = Lin({n: y // q2.k for n, y in p2.c.items()}, p2.k // q2.k)
                        else:
                            lin = self.fresh("fd", p2, q2)
                    else:
                        lin = self.fresh("fd", p, q)
                elif isinstance(op, ast.Div):
                    q2, p2 = self.subst(q), self.subst(p)
                    if not q2.c and q2.k and all(isinstance(y, int) and y % q2.k == 0 for y in list(p2.c.values()) + [p2.k]):
                        lin = Lin({n: y // q2.k for n, y in p2.c.items()}, p2.k // q2.k)
                elif isinstance(op, ast.Pow):
                    p2, q2 = self.subst(p), self.subst(q)
                    if not p2.c and not q2.c and isinstance(q2.k, int) and 0 <= q2.k < 12:
                        lin = Lin(k=p2.k ** q2.k)
                    elif not q2.c and q2.k in (1, 2, 3):
                        lin = p
                        for _ in range(q2.k - 1):
                            lin = lmul(lin, p)
                    else:
                        lin = self.fresh("pow", p, q)
                elif isinstance(op, ast.Mod):
                    p2, q2 = self.subst(p), self.subst(q)
                    if not p2.c and not q2.c and q2.k:
                        lin = Lin(k=p2.k % q2.k)
                    else:
                        lin = self.fresh("mod", p, q)
            if (x and any(l is not None and has_batch(l) for l in (p, q))):
                mix = mix | {self.where(node)}
            return num(lin, x=x, rows=rows, mix=mix) if lin is not None else V("num", x=x, rows=rows, mix=mix)
        return self.elementwise([a, b], node, isbool=isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and all(v.isbool for v in (a, b)))

    def elementwise(self, vs, node, isbool=False):
        x, rows, mix = taint(vs)
        vs2 = [self.toarray(v) if v.k in ("list", "range") else v for v in vs]
        if all(v.k == "num" for v in vs2):
            return V("num", x=x, rows=rows, mix=mix)
        vs2 = [num() if v.k == "unk" and v.name is not None and not v.x and any(w.k == "arr" and w.x for w in vs2) else v for v in vs2]
        if any(v.k not in ("arr", "num") for v in vs2):
            return V("unk", x=x, rows=rows, mix=mix, bc=True if any(v.bc or v.x and v.k == "arr" and batchy(v.shape) for v in vs2) else None)
        shs = [v.shape if v.k == "arr" else () for v in vs2]
        sh, bad = self.bcast(shs, [v.x or v.pos for v in vs2])
        if isinstance(bad, tuple):
            self.issue("misfit", node, f"an operand with {bad[1]} values is combined with one of {bad[2]}")
            bad = None
        if bad is not None and x:
            mix = mix | {self.where(node)}
        if x and any(v.k == "num" and v.lin is not None and has_batch(v.lin) and not isbool for v in vs2):
            mix = mix | {self.where(node)}
        pos = any(v.pos for v in vs2)
        if pos and any(v.x and v.k == "arr" and not v.pos for v in vs2):
            mix = mix | {self.where(node)}
        return V("arr", shape=sh, x=x, rows=rows, mix=mix, isbool=isbool, pos=pos)

    def matmul(self, a, b, node):
        a = self.toarray(a) if a.k == "list" else a
        b = self.toarray(b) if b.k == "list" else b
        x, rows, mix = taint([a, b])
        if a.k == "num" or b.k == "num":
            return self.elementwise([a, b], node)
        if a.k != "arr" or b.k != "arr" or a.shape is None or b.shape is None:
            return V("unk", x=x, rows=rows, mix=mix)
        p, q = a.shape, b.shape
        if not p or not q:
            return self.elementwise([a, b], node)
        ca, cb = p[-1], q[-2] if len(q) > 1 else q[-1]
        if (a.x and ca is not None and has_batch(ca)) or (b.x and cb is not None and has_batch(cb)):
            mix = mix | {self.where(node)}
        if len(p) <= 2 and len(q) <= 2:
            sh = p[:-1] + (q[-1:] if len(q) > 1 else ())
        elif len(q) <= 2:
            sh = p[:-1] + (q[-1:] if len(q) > 1 else ())
        else:
            sh = None
        if sh == ():
            return V("num", x=x, rows=rows, mix=mix)
        if sh is not None and x and sum(1 for d in sh if d is not None and batch(d)) > 1:
            mix = mix | {self.where(node)}
        return V("arr", shape=sh, x=x, rows=rows, mix=mix)

    def x_Subscript(self, e):
        b = self.ev(e.value)
        if b.k == "dict":
            i = self.ev(e.slice)
            d = self.st.heap.d.get(b.obj[0], {})
            if i.const is not None and i.const in d:
                return d[i.const]
            if not b.obj[0].startswith("out") and d:
                r = None
                for v in d.values():
                    r = v if r is None else self.join(r, v)
                if i.const is None:
                    return r
            x, rows, mix = taint([i])
            return V("unk", x=x, rows=rows, mix=mix)
        return self.subscript_value(b, self.indices(e.slice), e)

    # comprehensions
    def comp(self, e, elt):
        saved = dict(self.st.env)
        g = e.generators
        it = self.ev(g[0].iter)
        el = self.elements(it)
        out = None
        if el is not None and len(g) == 1 and not g[0].ifs:
            items = []
            for v in el:
                self.assign(g[0].target, v, e)
                items.append(elt())
            out = seq(items)
        elif el is not None and len(g) == 1:
            items, sure = [], True
            for v in el:
                self.assign(g[0].target, v, e)
                ts = [self.truth(c) for c in g[0].ifs]
                if any(t is False for t in ts):
                    continue
                if any(t is not True for t in ts):
                    sure = False
                items.append(elt())
            if sure:
                out = seq(items)
            else:
                el = None
                for p in items:
                    el = p if el is None else self.join(el, p)
                out = seq(None, el, None)
        else:
            acc = {}
            count, item, facts, iv = self.abstract_item(it, e)

            def nested(k):
                for c in g[k].ifs:
                    self.truth(c)
                if k + 1 < len(g):
                    it2 = self.ev(g[k + 1].iter)
                    els = self.elements(it2)
                    if els is not None and len(els) <= 40:
                        for v in els:
                            self.assign(g[k + 1].target, v, e)
                            nested(k + 1)
                    else:
                        c2, i2, f2, iv2 = self.abstract_item(it2, e)
                        self.assign(g[k + 1].target, i2, e)
                        nested(k + 1)
                    return None
                v = elt()
                acc["v"] = v if "v" not in acc else self.join(acc["v"], v)
                return None
            self.symbolic(count, facts, iv, lambda: self.assign(g[0].target, item, e), lambda: nested(0), e)
            v = acc.get("v")
            gone = set(iv[0].c) if iv[0] is not None else set()
            v = self.leave(v, gone, self.where(e)) if v is not None else None
            # the rows of the batch one after the other
            if v is not None and count is not None and batch(count):
                v = self.strip(acc["v"], gone)
            if len(g) == 1 and not g[0].ifs:
                out = seq(None, v, count)
            else:
                out = seq(None, v, None)
        names = {n.id for c in g for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        for n in names:
            if n in saved:
                self.st.env[n] = saved[n]
            else:
                self.st.env.pop(n, None)
        return out

    def x_ListComp(self, e):
        return self.comp(e, lambda: self.ev(e.elt))

    x_GeneratorExp = x_ListComp
    x_SetComp = x_ListComp

    def x_DictComp(self, e):
        v = self.comp(e, lambda: seq([self.ev(e.key), self.ev(e.value)]))
        x, rows, mix = taint([v])
        if v.items is not None:
            d = {p.items[0].const: p.items[1] for p in v.items if p.items and p.items[0].const is not None}
            if len(d) == len(v.items):
                return self.newobj(None, d, "dict")
        return V("unk", x=x, rows=rows, mix=mix)

    # ------------------------------------------------------------------ calls
    def x_Call(self, e):
        fn = e.func
        args, kws, complete = [], {}, True
        # super()
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and "super" not in self.st.env:
            target = self.supercall(fn.attr)
        else:
            target = self.ev(fn)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                el = self.elements(v)
                if el is None:
                    complete = False
                else:
                    args += el
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v.k == "dict":
                    for n, w in self.st.heap.d.get(v.obj[0], {}).items():
                        if isinstance(n, str):
                            kws.setdefault(n, w)
                elif v.k != "none":
                    complete = False
            else:
                kws[k.arg] = v
        return self.apply(target, args, kws, e)

    def supercall(self, name):
        fr = next((f for f in reversed(self.frames) if f.func is not None and f.func.cls is not None), None)
        if fr is None:
            return UNK
        f = fr.func
        slf = None
        if f.args:
            slf = self.st.env.get(f.args[0]) if fr is self.frames[-1] else None
        cls = slf.obj[1] if slf is not None and slf.k == "obj" and isinstance(slf.obj[1], Class) else fr.cls or f.cls
        m = cls.lookup(name, after=f.cls) if isinstance(cls, Class) else None
        if isinstance(m, Func):
            return V("bound", obj=(slf if slf is not None else UNK, m))
        if slf is not None and slf.k == "obj":
            h = self.hook_super(slf, cls, name)
            if h is not None:
                return h
        return V("bound", obj=(UNK, "?"))

    def hook_super(self, slf, cls, name):
        return None

    def hook_call(self, f, slf, args, kws, node):
        """a chance to model a function of the library; None: interpret it"""
        return None

    def apply(self, t, args, kws, node):
        vals = args + list(kws.values())
        x, rows, mix = taint(vals)
        com = dict(x=x, rows=rows, mix=mix)
        if t.k == "lambda":
            lam, env, f = t.obj
            saved = self.st.env
            self.st.env = dict(env)
            self.depth += 1
            try:
                if self.depth > MAXDEPTH:
                    return V("unk", **com)
                for p, v in zip(lam.args.args, args):
                    self.st.env[p.arg] = v
                n = len(lam.args.args) - len(lam.args.defaults)
                for p, d in zip(lam.args.args[n:], lam.args.defaults):
                    if lam.args.args.index(p) >= len(args):
                        self.st.env[p.arg] = kws.get(p.arg) or self.ev(d)
                return self.ev(lam.body)
            finally:
                self.depth -= 1
                self.st.env = saved
        if t.k == "func":
            f = t.obj
            r = self.hook_call(f, None, args, kws, node)
            if r is not None:
                return r
            if f.is_classmethod:
                return self.inline(f, self.bindcall(f, args, kws, first=V("cls", obj=f.cls)), node, f.cls)
            return self.inline(f, self.bindcall(f, args, kws), node, f.cls if f.cls is not None and f.args and args and args[0].k == "obj" else None)
        if t.k == "bound":
            slf, m = t.obj
            if isinstance(m, Func):
                r = self.hook_call(m, slf, args, kws, node)
                if r is not None:
                    return r
                if m.is_static:
                    return self.inline(m, self.bindcall(m, args, kws), node, m.cls)
                if m.is_classmethod:
                    return self.inline(m, self.bindcall(m, args, kws, first=V("cls", obj=slf.obj[1] if slf.k == "obj" else m.cls)), node, m.cls)
                return self.inline(m, self.bindcall(m, args, kws, first=slf), node, slf.obj[1] if slf.k == "obj" and isinstance(slf.obj[1], Class) else m.cls)
            r = self.method(slf, m, args, kws, node, t.base)
            if r is not None:
                return r
            x2, rows2, mix2 = taint([slf] + vals)
            return V("unk", x=x2, rows=rows2, mix=mix2)
        if t.k == "cls":
            return self.construct(t.obj, args, kws, node)
        if t.k == "obj" and isinstance(t.obj[1], Class):
            m = t.obj[1].lookup("__call__")
            if isinstance(m, Func):
                return self.inline(m, self.bindcall(m, args, kws, first=t), node, t.obj[1])
        if t.k == "ext":
            r = self.external(t.obj, args, kws, node)
            if r is not None:
                return r
            self.unknown.add(t.obj)
        return V("unk", **com)

    def construct(self, cls, args, kws, node):
        x, rows, mix = taint(args + list(kws.values()))
        if not isinstance(cls, Class):
            return V("unk", x=x, rows=rows, mix=mix)
        o = self.newobj(cls)
        init = cls.lookup("__init__")
        if isinstance(init, Func):
            r = self.hook_call(init, o, args, kws, node)
            if r is None:
                self.inline(init, self.bindcall(init, args, kws, first=o), node, cls)
        return o

    # methods of arrays, lists, dictionaries
    def drawn(self, name, args, kws):
        """the shape of an array of random numbers"""
        size = kws.get("size", args[0] if name in ("random", "random_sample") and args else args[2] if name in ("uniform", "normal", "integers", "randint") and len(args) > 2 else None)
        if name in ("rand", "randn") and args:
            size = seq(list(args))
        x, rows, mix = taint(list(args) + list(kws.values()))
        if size is None or size.k not in ("num", "list"):
            return V("unk", x=x, rows=rows, mix=mix)
        return V("arr", shape=self.dims(size), x=x, rows=rows, mix=mix)

    def method(self, v, name, args, kws, node, base):
        if v.k in ("unk", "none") and name in DRAWS and v.obj is None:
            return self.drawn(name, args, kws)
        if v.k == "num" and name in ("astype", "copy", "item", "sum", "max", "min", "flatten", "mean"):
            return v.but(lin=None, const=None)
        if v.k == "arr":
            if name in ("astype", "copy", "conj", "round", "clip", "conjugate", "view"):
                return self.elementwise([v] + [a for a in args if name == "clip"], node) if name == "clip" else v.but(ident=None)
            if name in REDUCE | ALONG | {"reshape", "flatten", "ravel", "squeeze", "repeat", "transpose", "swapaxes", "dot", "take", "cumsum"}:
                if name == "sort" or name == "partition":
                    r = self.lib("sort", [v] + args, kws, node)
                    if base is not None and r is not None:
                        self.update(base, r, node)
                    return NONE
                if name == "reshape" and len(args) != 1 and "shape" not in kws:
                    args = [seq(list(args))]
                if name == "transpose" and len(args) > 1:
                    args = [seq(list(args))]
                return self.lib(name, [v] + args, kws, node)
            if name == "fill":
                x, rows, mix = taint([v] + args)
                if base is not None:
                    self.update(base, v.but(x=x, rows=rows, mix=mix), node)
                return NONE
            if name == "tolist":
                return seq(None, self.itemof(v, self.fresh("it")), v.shape[0]) if v.shape else V("list", x=v.x, rows=v.rows, mix=v.mix)
            if name == "item":
                return V("num", x=v.x, rows=v.rows, mix=v.mix)
            return None
        if v.k == "list" and base is not None:
            if name == "append" and args:
                if v.items is not None and len(v.items) < 60 and not self.inloop_list(v):
                    self.update(base, v.but(items=list(v.items) + [args[0]], length=Lin(k=len(v.items) + 1)), node)
                else:
                    el = args[0]
                    for p in parts(v):
                        el = self.join(el, p)
                    self.update(base, seq(None, el, v.length + 1 if v.length is not None else None, x=v.x, rows=v.rows, mix=v.mix), node)
                return NONE
            if name == "extend" and args:
                self.update(base, self.concat(v, args[0] if args[0].k == "list" else seq(None, self.itemof(args[0], self.fresh("it")), self.lengthof(args[0]))), node)
                return NONE
            if name == "insert" and len(args) == 2:
                if v.items is not None and isinstance(args[0].const, int):
                    items = list(v.items)
                    items.insert(args[0].const, args[1])
                    self.update(base, v.but(items=items, length=Lin(k=len(items))), node)
                else:
                    el = args[1]
                    for p in parts(v):
                        el = self.join(el, p)
                    self.update(base, seq(None, el, v.length + 1 if v.length is not None else None), node)
                return NONE
            if name == "pop":
                if v.items:
                    i = args[0].const if args else -1
                    if isinstance(i, int) and -len(v.items) <= i < len(v.items):
                        items = list(v.items)
                        r = items.pop(i)
                        self.update(base, v.but(items=items, length=Lin(k=len(items))), node)
                        return r
                r = self.itemof(v, self.fresh("it"))
                self.update(base, seq(None, v.elem, None), node)
                return r
            if name == "reverse":
                if v.items is not None:
                    self.update(base, v.but(items=list(reversed(v.items))), node)
                return NONE
            if name in ("copy",):
                return v
            if name in ("sort", "remove", "clear"):
                self.update(base, seq(None, self.itemof(v, self.fresh("it")), v.length if name == "sort" else None), node)
                return NONE
            if name in ("index", "count"):
                return V("num", x=taint([v])[0])
        if v.k == "dict":
            d = self.st.heap.d.setdefault(v.obj[0], {})
            if name == "get" and args:
                c = args[0].const
                if c is not None and c in d:
                    return d[c]
                if v.may or c is None or "**open" in d:
                    return UNK
                return args[1] if len(args) > 1 else kws.get("default", NONE)
            if name == "pop" and args:
                c = args[0].const
                if c is not None and c in d:
                    return d.pop(c)
                return args[1] if len(args) > 1 else NONE
            if name == "setdefault" and args:
                c = args[0].const
                if c is not None:
                    if c not in d:
                        d[c] = args[1] if len(args) > 1 else NONE
                    return d[c]
            if name == "update":
                for a in args:
                    if a.k == "dict":
                        d.update(self.st.heap.d.get(a.obj[0], {}))
                    else:
                        x, rows, mix = taint([a])
                        d["**open"] = V("unk", x=x, rows=rows, mix=mix)
                d.update(kws)
                return NONE
            if name == "keys":
                return seq([V("str", const=k) for k in d if k != "**open"])
            if name == "values":
                return seq([x for k, x in d.items() if k != "**open"])
            if name == "items":
                return seq([seq([V("str", const=k), x]) for k, x in d.items() if k != "**open"])
            if name == "copy":
                return self.newobj(None, d, "dict")
        if v.k == "obj" and v.obj[1] == "problem":
            return self.inner(v, name, args, kws, node)
        return None

    def inloop_list(self, v):
        return False

    def inner(self, v, name, args, kws, node):
        return None

    # ------------------------------------------------------------------ functions of other libraries
    def external(self, path, args, kws, node):
        if path.startswith("builtins."):
            return self.builtin(path[9:], args, kws, node)
        if path in ("copy.copy", "copy.deepcopy"):
            return args[0] if args else None
        nm = libname(path)
        if nm is None:
            return None
        return self.lib(nm, args, kws, node)

    def builtin(self, nm, args, kws, node):
        x, rows, mix = taint(args)
        com = dict(x=x, rows=rows, mix=mix)
        a = args[0] if args else None
        if nm == "range" and args and all(v.k == "num" for v in args):
            lo, hi, st = (num(const=0), a, num(const=1)) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else num(const=1))
            return V("range", items=[lo, hi, st], **com)
        if nm == "len" and a is not None:
            if a.k == "dict" and not a.may:
                return num(const=len(self.st.heap.d.get(a.obj[0], {})))
            n = self.lengthof(a)
            if n is None and a.k == "unk" and a.name:
                n = A(f"len({a.name})")
                self.st.facts.append(n)
            return num(n) if n is not None else V("num")
        if nm in ("int", "float", "round", "abs", "bool", "complex") and a is not None:
            if a.k == "num":
                if nm == "bool":
                    t = self.truthval(a)
                    return V("num", const=t if isinstance(t, bool) else None, **com)
                return V("num", lin=a.lin if nm != "abs" or (a.lin is not None and self.ge(a.lin)) else None, const=a.const if nm in ("int", "float", "round") else None, **com)
            return V("num", **com)
        if nm in ("max", "min") and args:
            if len(args) == 1:
                if a.k == "arr" and a.shape and a.shape[0] is not None and has_batch(a.shape[0]) and a.x:
                    mix = mix | {self.where(node)}
                return V("num", x=x, rows=rows, mix=mix)
            if all(v.k == "num" and v.lin is not None for v in args):
                best = args[0].lin
                for v in args[1:]:
                    d = v.lin - best
                    if self.ge(d):
                        best = v.lin if nm == "max" else best
                    elif self.ge(-d):
                        best = best if nm == "max" else v.lin
                    else:
                        return num(self.fresh(nm, *sorted(repr(v.lin) for v in args)), **com)
                return num(best, **com)
            return V("num", **com)
        if nm == "sum" and a is not None:
            if a.k == "arr":
                return self.reduce(a, num(const=0), None, node)
            ps = parts(a)
            if ps:
                return self.elementwise(ps + list(args[1:]), node)
            return V("num", **com)
        if nm in ("any", "all") and a is not None:
            if a.k == "arr" and a.shape and a.shape[0] is not None and has_batch(a.shape[0]) and a.x:
                mix = mix | {self.where(node)}
            if a.k == "list" and a.items is not None:
                ts = [self.truthval(p) for p in a.items]
                if all(isinstance(t, bool) for t in ts):
                    return V("num", const=any(ts) if nm == "any" else all(ts))
            return V("num", x=x, rows=rows, mix=mix)
        if nm == "enumerate" and a is not None:
            st = args[1].const if len(args) > 1 else (kws["start"].const if "start" in kws else 0)
            el = self.elements(a)
            if el is not None and isinstance(st, int):
                return seq([seq([num(const=i + st), v]) for i, v in enumerate(el)])
            return V("enum", elem=a, const=st if isinstance(st, int) else 0)
        if nm == "zip":
            els = [self.elements(v) for v in args]
            if els and all(v is not None for v in els):
                return seq([seq(list(t)) for t in zip(*els)])
            return V("zip", items=list(args), **com)
        if nm in ("list", "tuple", "iter", "sorted", "reversed", "set", "frozenset"):
            if a is None:
                return seq([])
            el = self.elements(a)
            if el is not None and nm != "set":
                return seq(list(reversed(el)) if nm == "reversed" else el)
            if a.k in ("list", "range", "arr", "enum", "zip"):
                return seq(None, self.itemof(a, self.fresh("it")), self.lengthof(a) if nm != "set" else None)
            return V("unk", **com)
        if nm == "dict":
            d = {}
            for v in args:
                if v.k == "dict":
                    d.update(self.st.heap.d.get(v.obj[0], {}))
            d.update(kws)
            return self.newobj(None, d, "dict")
        if nm == "slice":
            ps = [None if v.k == "none" else v for v in args]
            return V("slice", items=[None, ps[0], None] if len(ps) == 1 else (ps + [None])[:3])
        if nm == "isinstance" and a is not None:
            n = unparse(node.args[1])
            if a.k == "arr":
                return V("num", const="ndarray" in n)
            if a.k == "none":
                return V("num", const=False)
            if a.k == "list":
                return V("num", const="list" in n or "tuple" in n)
            if a.k == "str":
                return V("num", const="str" in n)
            if a.k == "dict":
                return V("num", const="dict" in n)
            if a.k == "num" and a.const is not None:
                return V("num", const=("int" in n or "float" in n or "Number" in n))
            return V("num")
        if nm == "callable" and a is not None:
            return V("num", const=True) if a.k in ("func", "lambda", "cls", "bound") else (V("num", const=False) if a.k in ("list", "num", "none", "str", "arr") else V("num", name=f"callable {a.name}" if a.name else None))
        if nm == "hasattr" and len(args) == 2:
            if a.k == "obj" and args[1].const is not None and isinstance(a.obj[1], Class):
                has = args[1].const in self.st.heap.d.get(a.obj[0], {}) or a.obj[1].lookup_attr(args[1].const) is not None
                return V("num", const=bool(has))
            return V("num")
        if nm == "getattr" and len(args) >= 2 and args[1].const is not None:
            return self.attribute(a, args[1].const, node)
        if nm in ("print", "setattr"):
            return NONE
        if nm in ("str", "repr", "format"):
            return V("str")
        if nm == "type" and a is not None:
            return V("cls", obj=a.obj[1]) if a.k == "obj" and isinstance(a.obj[1], Class) else UNK
        if nm == "map" and len(args) >= 2:
            el = self.elements(args[1]) if len(args) == 2 else None
            if el is not None:
                return seq([self.apply(args[0], [v], {}, node) for v in el])
            return V("unk", **com)
        if nm == "pow" and len(args) == 2:
            return self.elementwise(args, node)
        return None

    def axis(self, args, kws, i=1):
        """'none', an int or a list of ints, or None if unknown"""
        v = kws.get("axis", args[i] if len(args) > i else NONE)
        if v.k == "none":
            return "none"
        if v.k == "num" and isinstance(v.const, int):
            return v.const
        if v.k == "list" and v.items is not None and all(isinstance(p.const, int) for p in v.items):
            return [p.const for p in v.items]
        return None

    def reduce(self, v, axis, kws, node, keep=False, nm=""):
        ax = axis if not isinstance(axis, V) else (axis.const if axis.k == "num" else ("none" if axis.k == "none" else None))
        v = self.toarray(v) if v.k in ("list", "range") else v
        if v.k == "num":
            return v.but(lin=None, const=None, name=None)
        com = dict(x=v.x, rows=v.rows, mix=v.mix)
        if v.k != "arr" or v.shape is None or ax is None:
            if ax == "none" and v.k in ("arr", "unk") and not keep:
                # a number from an array of unknown shape
                if v.x and v.bc:
                    com["mix"] = v.mix | {self.where(node)}
                return V("num", **com)
            return V("unk" if v.k != "arr" else "arr", **com)
        n = len(v.shape)
        axes = list(range(n)) if ax == "none" else [a if a >= 0 else a + n for a in (ax if isinstance(ax, list) else [ax])]
        if any(a < 0 or a >= n for a in axes):
            if v.x:
                self.issue("axis", node, f"the array has {n} axes only")
            return V("arr", **com)
        if v.x and any(v.shape[a] is not None and has_batch(v.shape[a]) for a in axes):
            com["mix"] = v.mix | {self.where(node)}
        sh = tuple((Lin(k=1) if i in axes else d) for i, d in enumerate(v.shape) if keep or i not in axes)
        if sh == () or (ax == "none" and not keep):
            return V("num", **com)
        return V("arr", shape=sh, pos=v.pos and batchy(sh), **com)

    def dims(self, v):
        """the dimensions in an argument shape=..."""
        if v.k == "num":
            return (v.lin if v.lin is not None else None,)
        if v.k == "list" and v.items is not None:
            return tuple(p.lin if p.k == "num" else None for p in v.items)
        if v.k == "list":
            return None
        return None

    def lib(self, nm, args, kws, node):
        x, rows, mix = taint(list(args) + list(kws.values()))
        com = dict(x=x, rows=rows, mix=mix)
        a = args[0] if args else next(iter(kws.values()), None)
        short = nm.split(".")[-1]
        if nm == "lexsort" and a is not None:
            t = self.toarray(a) if a.k in ("list", "range") else a
            return V("arr", shape=(t.shape[-1],) if t.k == "arr" and t.shape else (None,), **com)
        if nm.startswith("random."):
            return self.drawn(short, args, kws) if short in DRAWS else V("unk", **com)
        if short in ("float64", "float32", "int64", "int32", "int_", "float_", "intp") and a is not None:
            return a if a.k in ("num", "arr") else V("num", **com)
        if nm in ("ndim",) and a is not None:
            s = self.shape_of(a)
            return num(const=len(s)) if s is not None else V("num")
        if nm == "size" and a is not None:
            t = self.toarray(a)
            ax = args[1] if len(args) > 1 else kws.get("axis")
            if t.k != "arr" or t.shape is None:
                return V("num")
            if ax is None or ax.k == "none":
                n = self.total(t.shape)
            else:
                n = t.shape[ax.const] if isinstance(ax.const, int) and -len(t.shape) <= ax.const < len(t.shape) else None
            return num(n) if n is not None else V("num")
        if nm == "shape" and a is not None:
            return self.attribute(self.toarray(a), "shape", node) if self.toarray(a).k == "arr" else UNK
        if short in UNARY and a is not None and not nm.startswith("linalg."):
            if short == "atleast_1d":
                return a if a.k == "arr" else V("arr", shape=(Lin(k=1),), **com)
            if a.k == "num":
                if short in ("floor", "ceil", "round", "rint", "trunc") and a.lin is not None:
                    return num(a.lin, const=a.const, x=a.x, rows=a.rows, mix=a.mix)
                if short in ("abs", "fabs", "absolute") and isinstance(a.const, int):
                    return num(const=abs(a.const))
                return V("num", **com)
            r = self.toarray(a) if a.k in ("list", "range") else a
            if r.k == "arr":
                return r.but(ident=None, isbool=r.isbool or short.startswith("is") or short.startswith("logical"))
            return V("unk", **com)
        if short in BINARY:
            return self.elementwise([v for v in args[:2]], node, isbool=short.startswith(("logical", "less", "greater", "equal", "not_", "bitwise")))
        if short in ("clip",):
            return self.elementwise(args[:3], node)
        if short == "where":
            if len(args) == 3:
                return self.elementwise(args, node)
            return seq([V("arr", shape=None, **com)])
        if short == "select":
            return V("unk", **com)
        if short in ("array", "asarray", "asfarray", "asanyarray"):
            r = self.toarray(a) if a is not None else UNK
            return r
        if short in ("zeros", "ones", "empty", "full") and a is not None:
            d = self.dims(kws.get("shape", a))
            f = args[1:2] if short == "full" else []
            fx, fr, fm = taint(f + ([kws["fill_value"]] if "fill_value" in kws else []))
            if d is None:
                # an array of the shape of another one
                return V("arr", shape=None, x=fx, rows=fr, mix=fm)
            return V("arr", shape=d, x=fx, rows=fr, mix=fm)
        if short in ("zeros_like", "ones_like", "empty_like", "full_like") and a is not None:
            fx, fr, fm = taint(args[1:2] if short == "full_like" else [])
            r = self.toarray(a) if a.k != "num" else a
            return V("arr", shape=r.shape if r.k == "arr" else (() if r.k == "num" else None), x=fx, rows=fr, mix=fm)
        if short in ("eye", "identity") and a is not None and a.k == "num":
            m = args[1].lin if len(args) > 1 and args[1].k == "num" else a.lin
            return V("arr", shape=(a.lin, m), pos=a.lin is not None and has_batch(a.lin))
        if short == "arange" and a is not None:
            vs = [v for v in args if v.k == "num"]
            if len(vs) != len(args) or any(v.lin is None for v in vs):
                return V("arr", shape=(self.fresh("dim"),), **com)
            lo, hi, st = (Lin(), vs[0].lin, 1) if len(vs) == 1 else (vs[0].lin, vs[1].lin, vs[2].const if len(vs) > 2 else 1)
            if not isinstance(st, int) or st == 0:
                return V("arr", shape=(self.fresh("dim"),), **com)
            n = self.ceildiv((hi - lo) if st > 0 else (lo - hi), abs(st))
            return V("arr", shape=(n,), pos=has_batch(n), **com)
        if short in ("linspace", "logspace", "geomspace"):
            n = kws.get("num", args[2] if len(args) > 2 else num(const=50))
            return V("arr", shape=(n.lin if n.k == "num" else None,), **com)
        if short in REDUCE and a is not None and not nm.startswith("linalg."):
            i = 2 if short in ("quantile", "percentile") else 1
            keep = kws.get("keepdims")
            ax = self.axis(args, kws, i)
            r = self.reduce(a, ax, kws, node, keep=keep is not None and keep.const is True)
            if short in ("average",) and "weights" in kws:
                r = r.but(x=x, rows=rows, mix=r.mix | mix)
            return r
        if nm == "linalg.norm" and a is not None:
            ax = self.axis(args, kws, 2)
            keep = kws.get("keepdims")
            return self.reduce(a, ax, kws, node, keep=keep is not None and keep.const is True)
        if short in ALONG and a is not None:
            v = self.toarray(a) if a.k in ("list", "range") else a
            if v.k != "arr":
                return V("unk", **com)
            i = 2 if short in ("roll", "partition", "argpartition") else 1
            default = num(const=-1) if short in ("sort", "argsort", "diff", "partition", "argpartition") else NONE
            w = kws.get("axis", args[i] if len(args) > i and short != "diff" else (args[2] if short == "diff" and len(args) > 2 else default))
            ax = "none" if w.k == "none" else w.const if w.k == "num" else None
            if short in ("flipud", "fliplr"):
                ax = 0 if short == "flipud" else 1
            if v.shape is None or ax is None:
                return V("arr", **com)
            n = len(v.shape)
            axes = range(n) if ax == "none" else [ax if ax >= 0 else ax + n]
            if v.x and any(k < n and v.shape[k] is not None and has_batch(v.shape[k]) for k in axes):
                com["mix"] = mix | {self.where(node)}
            if short in ("cumsum", "cumprod", "nancumsum") and ax == "none":
                return V("arr", shape=(self.total(v.shape),), **com)
            if short == "diff" and axes and isinstance(ax, int):
                k = axes[0]
                sh = tuple((d - 1 if d is not None else None) if j == k else d for j, d in enumerate(v.shape))
                return V("arr", shape=sh, **com)
            return V("arr", shape=v.shape, **com)
        if short in ("column_stack", "vstack", "row_stack", "hstack", "stack", "concatenate", "dstack", "concat") and a is not None:
            return self.stack(short, a, args, kws, node)
        if short in ("append",) and len(args) >= 2:
            return self.stack("concatenate", seq(args[:2]), [seq(args[:2])] + ([args[2]] if len(args) > 2 else []), kws, node)
        if short in ("dot", "matmul"):
            return self.matmul(args[0], args[1], node) if len(args) > 1 else V("unk", **com)
        if short == "inner" and len(args) > 1:
            return V("unk", **com)
        if short == "outer" and len(args) > 1:
            p, q = [self.toarray(v) if v.k == "list" else v for v in args[:2]]
            if p.k == "arr" and q.k == "arr" and p.shape is not None and q.shape is not None and len(p.shape) == len(q.shape) == 1:
                sh = (p.shape[0], q.shape[0])
                if x and all(d is not None and batch(d) for d in sh):
                    com["mix"] = mix | {self.where(node)}
                return V("arr", shape=sh, **com)
            return V("unk", **com)
        if short == "tile" and len(args) > 1:
            v = self.toarray(a) if a.k in ("list", "num") else a
            reps = self.dims(args[1])
            if v.k == "arr" and v.shape is not None and reps is not None:
                n = max(len(v.shape), len(reps))
                s1 = (Lin(k=1),) * (n - len(v.shape)) + v.shape
                s2 = (Lin(k=1),) * (n - len(reps)) + reps
                if v.x and any(d is not None and batch(d) and r is not None and r != Lin(k=1) for d, r in zip(s1, s2)):
                    com["mix"] = mix | ({self.where(node)} if any(d is not None and batch(d) and r is not None and has_batch(r) for d, r in zip(s1, s2)) else frozenset())
                return V("arr", shape=tuple(lmul(p, q) if p is not None and q is not None else None for p, q in zip(s1, s2)), **com)
            return V("unk" if v.k != "arr" else "arr", **com)
        if short == "repeat" and len(args) > 1:
            v = self.toarray(a) if a.k in ("list",) else a
            ax = self.axis(args, kws, 2)
            r = args[1].lin if args[1].k == "num" else None
            if v.k == "num":
                return V("arr", shape=(r,), **com)
            if v.k == "arr" and v.shape is not None and isinstance(ax, int):
                ax = ax if ax >= 0 else ax + len(v.shape)
                return V("arr", shape=tuple((lmul(d, r) if r is not None and d is not None else None) if j == ax else d for j, d in enumerate(v.shape)), **com)
            if v.k == "arr" and v.shape is not None and len(v.shape) == 1:
                return V("arr", shape=(lmul(v.shape[0], r) if r is not None and v.shape[0] is not None else None,), **com)
            return V("arr", **com)
        if short in ("expand_dims",) and a is not None:
            v = self.toarray(a)
            ax = self.axis(args, kws, 1)
            if v.k == "arr" and v.shape is not None and isinstance(ax, int):
                n = len(v.shape) + 1
                k = ax if ax >= 0 else ax + n
                return v.but(shape=v.shape[:k] + (Lin(k=1),) + v.shape[k:], ident=None)
            return V("arr", **com)
        if short == "atleast_2d" and a is not None:
            v = self.toarray(a) if a.k == "list" else a
            if v.k == "arr" and v.shape is not None:
                if len(v.shape) == 1:
                    return v.but(shape=(Lin(k=1),) + v.shape, ident=None)
                if len(v.shape) >= 2:
                    return v
            return V("arr", **com)
        if short == "squeeze" and a is not None:
            v = self.toarray(a) if a.k == "list" else a
            if v.k == "arr" and v.shape is not None and all(d is not None for d in v.shape):
                ax = self.axis(args, kws, 1)
                if ax == "none":
                    return v.but(shape=tuple(d for d in v.shape if d != Lin(k=1)), ident=None)
                if isinstance(ax, int):
                    k = ax if ax >= 0 else ax + len(v.shape)
                    return v.but(shape=v.shape[:k] + v.shape[k + 1:], ident=None)
            return V("arr", **com)
        if short in ("flatten", "ravel"):
            v = self.toarray(a) if a.k == "list" else a
            if v.k == "arr" and v.shape is not None:
                if len(v.shape) == 1:
                    return v.but(ident=v.ident)
                return self.reshape(v, (self.total(v.shape),), node)
            return V("arr" if v.k == "arr" else "unk", **com)
        if short == "reshape":
            v = self.toarray(a) if a.k in ("list", "num") else a
            tgt = kws.get("shape", kws.get("newshape", args[1] if len(args) > 1 else None))
            d = self.dims(tgt) if tgt is not None else None
            if v.k == "arr" and d is not None:
                return self.reshape(v, d, node)
            return V("arr" if v.k == "arr" else "unk", **com)
        if short in ("transpose", "swapaxes", "moveaxis"):
            v = self.toarray(a) if a.k == "list" else a
            if v.k == "arr" and v.shape is not None:
                if short == "transpose" and len(args) < 2 and "axes" not in kws:
                    return v.but(shape=tuple(reversed(v.shape)), ident=None)
                if short == "transpose":
                    p = kws.get("axes", args[1] if len(args) > 1 else None)
                    if p is not None and p.k == "list" and p.items is not None and all(isinstance(i.const, int) for i in p.items) and len(p.items) == len(v.shape):
                        return v.but(shape=tuple(v.shape[i.const] for i in p.items), ident=None)
                if short == "swapaxes" and len(args) > 2 and all(isinstance(i.const, int) for i in args[1:3]):
                    sh = list(v.shape)
                    i, j = args[1].const, args[2].const
                    if max(i, j) < len(sh):
                        sh[i], sh[j] = sh[j], sh[i]
                        return v.but(shape=tuple(sh), ident=None)
            return V("arr" if v.k == "arr" else "unk", **com)
        if short in ("split", "array_split") and len(args) > 1:
            ax = self.axis(args, kws, 2)
            ax = 0 if ax == "none" else ax
            n = args[1].const
            if a.k == "arr" and a.shape is not None and isinstance(ax, int) and isinstance(n, int) and 0 < n <= 60:
                k = ax if ax >= 0 else ax + len(a.shape)
                if k < len(a.shape):
                    d = self.divide(a.shape[k], Lin(k=n)) if a.shape[k] is not None else None
                    if a.x and a.shape[k] is not None and batch(a.shape[k]):
                        com["mix"] = mix | {self.where(node)}
                    return seq([V("arr", shape=tuple(d if j == k else y for j, y in enumerate(a.shape)), **com) for _ in range(n)])
            return V("list", **com)
        if short == "meshgrid":
            return seq([V("arr", shape=None, **com) for _ in args])
        if short in ("diag", "diagonal", "take", "unique", "delete", "insert", "apply_along_axis", "vectorize", "einsum", "interp", "cross", "kron", "searchsorted", "nonzero", "flatnonzero", "argwhere", "loadtxt", "genfromtxt", "isin", "in1d", "choose", "digitize", "trace", "polyval", "convolve", "triu", "tril", "ix_", "indices", "cov", "corrcoef", "linalg.inv", "linalg.det"):
            if short in ("cov", "corrcoef", "convolve", "unique") and a is not None and a.k == "arr" and a.x and batchy(a.shape):
                com["mix"] = mix | {self.where(node)}
            if short == "apply_along_axis" and len(args) >= 3 and args[1].const == 0 and args[2].k == "arr" and args[2].x and args[2].shape and args[2].shape[0] is not None and batch(args[2].shape[0]):
                com["mix"] = mix | {self.where(node)}
            return V("unk", **com)
        if nm in ("seterr", "errstate", "set_printoptions"):
            return UNK
        if short in ("factorial", "comb", "gamma", "erf", "gcd", "hypot"):
            return V("num", **com) if all(v.k == "num" for v in args) else V("unk", **com)
        self.unknown.add(nm)
        return V("unk", **com)

    def reshape(self, v, d, node):
        if v.shape is None:
            if any(y is None for y in d):
                return v.but(shape=None, ident=None)
            if any(y == Lin(k=-1) for y in d):
                d = tuple(None if y == Lin(k=-1) else y for y in d)
            return v.but(shape=d, ident=None)
        total = self.total(v.shape)
        neg = [i for i, y in enumerate(d) if y is not None and y == Lin(k=-1)]
        d = list(d)
        if neg:
            rest = Lin(k=1)
            for i, y in enumerate(d):
                if i != neg[0]:
                    rest = lmul(rest, y) if rest is not None and y is not None else None
            d[neg[0]] = self.divide(total, rest) if total is not None and rest is not None else None
        elif total is not None and all(y is not None for y in d) and self.same(total, self.total(d)) is False:
            if self.param_only(total - self.total(d)) or True:
                self.issue("reshape", node, f"{[repr(y) for y in v.shape]} to {[repr(y) for y in d]}")
        mix = v.mix
        # where the batch is
        src = [i for i, y in enumerate(v.shape) if y is not None and batch(y)]
        if src and v.x and all(y is not None for y in v.shape):
            lead = all(y == Lin(k=1) for y in v.shape[:src[0]])
            dst = [i for i, y in enumerate(d) if y is not None and batch(y)]
            if dst:
                dlead = all(d[j] is not None and d[j] == Lin(k=1) for j in range(dst[0]))
                before, dbefore = v.shape[:src[0]], d[:dst[0]]
                p, q = self.total(before), self.total(dbefore) if all(y is not None for y in dbefore) else None
                if p is not None and q is not None and self.same(p, q) is False or (lead != dlead and p is not None and q is not None and not self.same(p, q)):
                    mix = mix | {self.where(node)}
        return v.but(shape=tuple(d), mix=mix, ident=None)

    def divide(self, a, b):
        a, b = self.subst(a), self.subst(b)
        if not b.c:
            if b.k and all(y % b.k == 0 for y in list(a.c.values()) + [a.k]):
                return Lin({n: y // b.k for n, y in a.c.items()}, a.k // b.k)
            return None
        if a == b:
            return Lin(k=1)
        # one product divided by one of its factors
        if len(b.c) == 1 and b.k == 0:
            (n, c), = b.c.items()
            fs = n.split("*")
            out = Lin()
            if a.k:
                return None
            for m, y in a.c.items():
                ms = m.split("*")
                for f in fs:
                    if f not in ms:
                        return None
                    ms.remove(f)
                if y % c:
                    return None
                out = out + (Lin({"*".join(ms): y // c}) if ms else Lin(k=y // c))
            return out
        # N * (p + q) / (p + q)
        for n in list(a.c):
            for f in n.split("*"):
                if lmul(A(f), b) == a:
                    return A(f)
        return None

    def stack(self, how, a, args, kws, node):
        x, rows, mix = taint([a])
        com = dict(x=x, rows=rows, mix=mix)
        if a.k == "arr":
            # the rows of an array
            if how == "column_stack" and a.shape is not None and len(a.shape) == 2:
                return a.but(shape=(a.shape[1], a.shape[0]), ident=None)
            if how in ("vstack", "row_stack") and a.shape is not None and len(a.shape) == 2:
                return a
            return V("arr", **com)
        if a.k != "list":
            return V("unk", **com)
        ps = [self.toarray(p) if p.k in ("list", "range") else p for p in parts(a)]
        shs = [(() if p.k == "num" else p.shape if p.k == "arr" else None) for p in ps]
        ax = self.axis(args, kws, 1)
        ax = 0 if ax == "none" else ax
        if not ps or any(s is None for s in shs):
            return V("arr", shape=None, **com)
        known = a.items is not None

        def total(ds):
            if known:
                t = Lin()
                for d in ds:
                    if d is None:
                        return None
                    t = t + d
                return t
            if a.length is None or ds[0] is None:
                return None
            return lmul(a.length, ds[0])

        def common(ds):
            d = ds[0]
            for y in ds[1:]:
                if d is None:
                    d = y
                elif y is not None and not self.same(d, y):
                    return None
            return d
        one = Lin(k=1)
        if how == "column_stack":
            two = [(s + (one,) if len(s) == 1 else ((one, one) if len(s) == 0 else s)) for s in shs]
            if any(len(s) != 2 for s in two):
                if any(len(s) == 3 for s in two) and len({len(s) for s in two}) == 1:
                    return V("arr", shape=(common([s[0] for s in two]), total([s[1] for s in two]), common([s[2] for s in two])), **com)
                return V("arr", shape=None, **com)
            r = common([s[0] for s in two])
            if r is None:
                ds = [s[0] for s in two]
                if all(d is not None for d in ds) and any(batch(d) for d in ds) and x:
                    bad = [d for d in ds if not batch(d)]
                    if bad and any(self.same(d, one) for d in bad):
                        self.issue("stack", node, "columns with a single row are stacked with columns that have a row for each solution")
            return V("arr", shape=(r, total([s[1] for s in two])), **com)
        if how in ("vstack", "row_stack"):
            two = [((one,) + s if len(s) == 1 else ((one, one) if len(s) == 0 else s)) for s in shs]
            if any(len(s) != 2 for s in two):
                return V("arr", shape=None, **com)
            return V("arr", shape=(total([s[0] for s in two]), common([s[1] for s in two])), **com)
        if how == "stack":
            if len({len(s) for s in shs}) != 1 or not isinstance(ax, int):
                return V("arr", shape=None, **com)
            n = len(shs[0])
            sh = [common([s[i] for s in shs]) for i in range(n)]
            k = ax if ax >= 0 else ax + n + 1
            sh.insert(k, a.length)
            return V("arr", shape=tuple(sh), **com)
        if how in ("concatenate", "hstack", "concat"):
            if len({len(s) for s in shs}) != 1 or not isinstance(ax, int):
                return V("arr", shape=None, **com)
            n = len(shs[0])
            if how == "hstack":
                if n == 0:
                    return V("arr", shape=(a.length,), **com)
                ax = 0 if n == 1 else 1
            k = ax if ax >= 0 else ax + n
            if k >= n:
                return V("arr", shape=None, **com)
            return V("arr", shape=tuple(total([s[i] for s in shs]) if i == k else common([s[i] for s in shs]) for i in range(n)), **com)
        return V("arr", shape=None, **com)
