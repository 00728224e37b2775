"""Paths of small functions: guards, final values of attributes and the returned expression, with locals substituted.

`paths(repo, f)` enumerates the paths of a (small) function. On every path assignments to plain names are substituted into
later expressions, calls of package helpers with one result are opened, and tests become facts. Values computed in loops
are opaque. No path is handed to a solver; the rules look at the resulting expressions.
"""
import ast
import copy
from .model import *

LIMIT = 300


class Path:
    def __init__(self, env=None, facts=(), attrs=None, alive=True):
        self.env = dict(env or {})
        self.facts = list(facts)        # (test expression, outcome)
        self.attrs = dict(attrs or {})  # "self.x" -> expression
        self.ret = None
        self.alive = alive
        self.how = None                 # None (running), "return", "raise"
        self.effects = []               # calls in order

    def fork(self):
        p = Path(self.env, self.facts, self.attrs)
        p.effects = list(self.effects)
        return p


class Opaque(ast.Name):
    pass


def opaque(tag):
    return ast.Name(id=f"<{tag}>", ctx=ast.Load())


class Subst(ast.NodeTransformer):
    def __init__(self, env, attrs):
        self.env, self.attrs = env, attrs

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return self.env[n.id]
        return n

    def visit_Attribute(self, n):
        n = self.generic_visit(n)
        k = dotted(n)
        if k is not None and k in self.attrs and isinstance(n.ctx, ast.Load):
            return self.attrs[k]
        return n

    def visit_Lambda(self, n):
        return n


MUTATORS = {"append", "extend", "insert", "add", "update", "remove", "pop", "clear", "sort", "reverse", "setdefault"}


class Engine:
    def __init__(self, repo, f, cls=None, depth=0):
        self.repo, self.f, self.cls, self.depth = repo, f, cls, depth

    def value(self, e, p):
        if e is None:
            return None
        e = copy.deepcopy(e)
        e = self.open(e, p)
        # parameters and locals first
        return Subst(p.env, p.attrs).visit(e)

    def open(self, e, p):
        """open calls of helpers of the package that have exactly one return and nothing else of interest"""
        if self.depth > 3:
            return e
        eng = self

        class T(ast.NodeTransformer):
            def visit_Call(self, c):
                orig = c
                c = self.generic_visit(c)
                t = eng.target(orig)
                if t is None:
                    return c
                if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                    return c
                body = [s for s in t.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if not body or not isinstance(body[-1], ast.Return) or body[-1].value is None or not all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in body[:-1]):
                    return c
                m, star, dstar, extra, xkw = bind_args(c, t)
                env = {a: m.get(a, t.defaults.get(a)) for a in t.all_params}
                if any(v is None for v in env.values()) or extra or xkw or t.vararg or t.kwarg:
                    return c
                if t.selfname:
                    env[t.selfname] = c.func.value if isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, ast.Call) else ast.Name(id="self", ctx=ast.Load())
                q = Path(env)
                sub = Engine(eng.repo, t, eng.cls, eng.depth + 1)
                for s in body[:-1]:
                    q.env[s.targets[0].id] = sub.value(s.value, q)
                return sub.value(body[-1].value, q)
        return T().visit(e)

    def target(self, call):
        ts = self.repo.resolve_call(call, self.f, fallback=False)
        if self.cls is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == self.repo.self_name(self.f):
            t = self.cls.lookup(call.func.attr)
            ts = [t] if t is not None else ts
        if len(ts) == 1 and isinstance(ts[0], Func) and not isinstance(ts[0].node, ast.Lambda) and ts[0] is not self.f and ts[0].name != "__init__" and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ts[0].walk()):
            return ts[0]
        return None

    # ---------------------------------------------------------------------
    def run(self):
        ps = self.block(self.f.body, [Path()])
        for p in ps:
            if p.how is None:
                p.how, p.ret = "return", ast.Constant(None)
        return ps

    def block(self, body, ps):
        for st in body:
            out = []
            for p in ps:
                if p.how is not None:
                    out.append(p)
                else:
                    out += self.stmt(st, p)
            ps = out
            if len(ps) > LIMIT:
                raise RuntimeError("too many paths")
        return ps

    def test(self, t, p, taken):
        """[paths] on which the test has the outcome"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.test(t.operand, p, not taken)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if conj == taken:
                ps = [p]
                for v in t.values:
                    ps = [r for q in ps for r in self.test(v, q, taken)]
                return ps
            res, rest = [], [p]
            for v in t.values:
                res += [r for q in rest for r in self.test(v, q, taken)]
                rest = [r for q in rest for r in self.test(v, q, not taken)]
            return res
        v = self.value(t, p)
        if isinstance(v, (ast.BoolOp, ast.IfExp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            if ast.dump(v) != ast.dump(t):
                return self.test(v, p, taken) if not isinstance(v, ast.IfExp) else self.ifexp(v, p, taken)
            if isinstance(v, ast.IfExp):
                return self.ifexp(v, p, taken)
        if isinstance(v, ast.Constant):
            return [p.fork()] if bool(v.value) == taken else []
        d = ast.dump(v)
        for (u, o) in p.facts:
            if ast.dump(u) == d and o != taken:
                return []
        q = p.fork()
        q.facts.append((v, taken))
        return [q]

    def ifexp(self, v, p, taken):
        return [r for o, b in ((True, v.body), (False, v.orelse)) for q in self.test(v.test, p, o) for r in self.test(b, q, taken)]

    def cases(self, e, p):
        """(path, value) for an expression, conditional expressions split"""
        v = self.value(e, p)
        if isinstance(v, ast.IfExp):
            out = []
            for o, b in ((True, v.body), (False, v.orelse)):
                for q in self.test(v.test, p, o):
                    out += self.cases(b, q)
            return out
        return [(p, v)]

    def stmt(self, st, p):
        if isinstance(st, ast.If):
            a = [r for q in self.test(st.test, p, True) for r in self.block(st.body, [q])]
            b = [r for q in self.test(st.test, p, False) for r in self.block(st.orelse, [q])]
            return a + b
        if isinstance(st, ast.Return):
            out = []
            for q, v in self.cases(st.value, p) if st.value is not None else [(p, ast.Constant(None))]:
                q = q.fork()
                q.how, q.ret = "return", v
                out.append(q)
            return out
        if isinstance(st, ast.Raise):
            q = p.fork()
            q.how = "raise"
            return [q]
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                return [p]
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            out = []
            for q, v in self.cases(st.value, p):
                q = q.fork()
                for t in ts:
                    self.bind(t, v, q)
                out.append(q)
            return out
        if isinstance(st, ast.AugAssign):
            q = p.fork()
            cur = copy.deepcopy(st.target)
            for n in ast.walk(cur):
                if hasattr(n, "ctx"):
                    n.ctx = ast.Load()
            v = self.value(ast.BinOp(cur, st.op, st.value), q)
            self.bind(st.target, v, q)
            return [q]
        if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            q = p.fork()
            self.havoc(st, q)
            rets = [n for n in ast.walk(st) if isinstance(n, ast.Return)]
            out = [q]
            for r in rets:
                z = q.fork()
                z.how, z.ret = "return", self.value(r.value, z) if r.value is not None else ast.Constant(None)
                z.facts.append((opaque("loop"), True))
                out.append(z)
            return out
        if isinstance(st, ast.Try):
            ps = self.block(st.body, [p.fork()])
            alt = []
            for h in st.handlers:
                z = p.fork()
                for s in st.body:
                    self.havoc(s, z)
                z.facts.append((opaque("exception"), True))
                alt += self.block(h.body, [z])
            ps = self.block(st.orelse, ps)
            res = []
            for q in ps + alt:
                if st.finalbody:
                    how, ret = q.how, q.ret
                    q.how = None
                    for r in self.block(st.finalbody, [q]):
                        if r.how is None:
                            r.how, r.ret = how, ret
                        res.append(r)
                else:
                    res.append(q)
            return res
        if isinstance(st, (ast.With, ast.AsyncWith)):
            q = p.fork()
            for it in st.items:
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, self.value(it.context_expr, q), q)
            return self.block(st.body, [q])
        if isinstance(st, ast.Assert):
            return self.test(st.test, p, True) or [p]
        if isinstance(st, ast.Expr):
            q = p.fork()
            v = self.value(st.value, q)
            q.effects.append(v)
            self.mutate(st.value, q, False)
            return [q]
        return [p]

    def bind(self, t, v, q):
        if isinstance(t, ast.Name):
            q.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [ast.Subscript(v, ast.Constant(i), ast.Load()) for i in range(len(t.elts))]
            for a, b in zip(t.elts, vs):
                self.bind(a.value if isinstance(a, ast.Starred) else a, b, q)
        elif isinstance(t, ast.Attribute):
            k = dotted(Subst(q.env, {}).visit(copy.deepcopy(t)))
            if k is not None:
                q.attrs[k] = v
                for o in list(q.attrs):
                    if o.startswith(k + "."):
                        del q.attrs[o]

    def mutate(self, call, q, loop):
        """a list held by a local grows or changes"""
        if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.attr in MUTATORS:
            nm = call.func.value.id
            cur = q.env.get(nm)
            if isinstance(cur, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                if call.func.attr == "append" and not loop and isinstance(cur, ast.List) and len(call.args) == 1:
                    q.env[nm] = ast.List(list(cur.elts) + [self.value(call.args[0], q)], ast.Load())
                else:
                    q.env[nm] = opaque(nm)

    def havoc(self, st, q):
        for n in ast.walk(st):
            self.mutate(n, q, True)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.withitem)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.optional_vars] if isinstance(n, ast.withitem) else [n.target]
                for t in ts:
                    for nm in target_names(t) if t is not None else ():
                        q.env[nm] = opaque(nm)
                    for a in ast.walk(t) if t is not None else ():
                        if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store):
                            k = dotted(a)
                            if k:
                                q.attrs[k] = opaque(k)


def paths(repo, f, cls=None):
    return Engine(repo, f, cls).run()


# ------------------------------------------------------------------ rational normal form
class Poly:
    """polynomial over atoms (canonical texts) with float coefficients"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __sub__(self, o):
        return self + o * Poly.const(-1)

    def __mul__(self, o):
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                k = tuple(sorted(a + b))
                d[k] = d.get(k, 0) + x * y
        return Poly(d)

    def __eq__(self, o):
        ks = set(self.d) | set(o.d)
        return all(abs(self.d.get(k, 0) - o.d.get(k, 0)) < 1e-12 for k in ks)

    def __hash__(self):
        return hash(tuple(sorted(self.d)))

    def atoms(self):
        return {a for k in self.d for a in k}

    def is_const(self):
        return all(k == () for k in self.d)

    def value(self):
        return self.d.get((), 0)

    def __repr__(self):
        return " + ".join(f"{v:g}" + "".join("*" + a for a in k) for k, v in sorted(self.d.items())) or "0"


def rational(e, depth=0):
    """(numerator, denominator) of an expression over its non-arithmetic parts"""
    if depth > 30:
        return Poly.atom(unparse(e, 300)), Poly.const(1)
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool) and e.value == e.value and abs(e.value) != float("inf"):
        return Poly.const(e.value), Poly.const(1)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        n, d = rational(e.operand, depth + 1)
        return (n * Poly.const(-1) if isinstance(e.op, ast.USub) else n), d
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            a, b = rational(e.left, depth + 1)
            c, d = rational(e.right, depth + 1)
            if isinstance(e.op, ast.Add):
                return a * d + c * b, b * d
            if isinstance(e.op, ast.Sub):
                return a * d - c * b, b * d
            if isinstance(e.op, ast.Mult):
                return a * c, b * d
            return a * d, b * c
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and 0 <= e.right.value <= 4:
            a, b = rational(e.left, depth + 1)
            n, d = Poly.const(1), Poly.const(1)
            for _ in range(e.right.value):
                n, d = n * a, d * b
            return n, d
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "float" and len(e.args) == 1 and not e.keywords:
        return rational(e.args[0], depth + 1)
    if isinstance(e, ast.Call) and (dotted(e.func) or "") in ("np.divide", "numpy.divide") and len(e.args) >= 2:
        return rational(ast.BinOp(e.args[0], ast.Div(), e.args[1]), depth + 1)
    return Poly.atom(unparse(e, 300)), Poly.const(1)


def same_ratio(a, b):
    return a[0] * b[1] == b[0] * a[1]
