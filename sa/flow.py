"""A small forward abstract interpreter over the syntax tree: branches are joined, loops are iterated to a fixpoint, helpers of the
package are opened with the abstract values of their arguments. The domain is given by a subclass."""
import ast
from .model import *

MAXDEPTH = 7


class State:
    __slots__ = ("env", "attrs", "dead")

    def __init__(self, env=None, attrs=None):
        self.env = dict(env or {})
        self.attrs = dict(attrs or {})
        self.dead = False

    def copy(self):
        s = State(self.env, self.attrs)
        s.dead = self.dead
        return s


class Frame:
    def __init__(self, f, up=None, node=None):
        self.f, self.up, self.node = f, up, node
        self.returns = []
        self.yields = []

    def chain(self):
        c = self
        while c is not None:
            yield c.f
            c = c.up


class Flow:
    TOP = None

    def __init__(self, repo, cls=None):
        self.repo, self.cls = repo, cls
        self.steps = 0

    # ------------------------------------------------------------- domain (to be overridden)
    def join(self, a, b):
        return a if a == b else self.TOP

    def const(self, e):
        return self.TOP

    def unknown_name(self, name, st, fr):
        return self.TOP

    def attribute(self, e, base, st, fr):
        return self.TOP

    def subscript(self, e, base, st, fr):
        return self.TOP

    def element(self, v, e, st, fr):
        """value of a loop variable running over v"""
        return self.TOP

    def operation(self, e, vals, st, fr):
        return self.TOP

    def container(self, e, vals, st, fr):
        return self.TOP

    def external(self, e, targets, recv, args, st, fr):
        """a call that is not opened; args: [(name or None, node, value)]"""
        return self.TOP

    def before_call(self, e, targets, recv, args, st, fr):
        """(value,) to decide the call here, or None"""
        return None

    def opens(self, t, e, fr):
        return True

    def branch(self, test, st, fr, taken):
        """the state on this side, or None if it cannot be reached"""
        return st

    def on_loop(self, s, st, fr):
        pass

    def loop_done(self, s, out, fr):
        pass

    def store_attr(self, t, v, st, fr):
        pass

    def store_sub(self, t, v, st, fr):
        pass

    def on_return(self, v, node, st, fr):
        pass

    def on_yield(self, v, node, st, fr):
        return self.TOP

    # ------------------------------------------------------------- engine
    def joined(self, a, b):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        s = State()
        for k in set(a.env) | set(b.env):
            s.env[k] = self.join(a.env[k], b.env[k]) if k in a.env and k in b.env else a.env.get(k, b.env.get(k))
        for k in set(a.attrs) | set(b.attrs):
            s.attrs[k] = self.join(a.attrs[k], b.attrs[k]) if k in a.attrs and k in b.attrs else a.attrs.get(k, b.attrs.get(k))
        return s

    def function(self, f, env, st, up=None, node=None):
        """(value returned, state of the caller afterwards, values of the parameters afterwards)"""
        fr = Frame(f, up, node)
        inner = State(env, st.attrs)
        out = self.block(f.body if not isinstance(f.node, ast.Lambda) else [ast.Return(f.node.body)], inner, fr)
        if not out.dead:
            fr.returns.append((None, self.const(ast.Constant(None)), out))
        val, end = None, None
        for n, v, s in fr.returns:
            val = v if val is None else self.join(val[0] if isinstance(val, tuple) and False else val, v)
            end = s if end is None else self.joined(end, s)
        if end is None:
            end = out
        return val, end, fr

    def block(self, body, st, fr):
        for s in body:
            if st.dead:
                return st
            self.steps += 1
            if self.steps > 60000:
                raise RuntimeError("too many steps")
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        if isinstance(s, ast.Return):
            v = self.eval(s.value, st, fr) if s.value is not None else self.const(ast.Constant(None))
            self.on_return(v, s, st, fr)
            fr.returns.append((s, v, st.copy()))
            st = st.copy()
            st.dead = True
            return st
        if isinstance(s, ast.Raise):
            st = st.copy()
            st.dead = True
            return st
        if isinstance(s, (ast.Break, ast.Continue)):
            fr.loops[-1].append((type(s), st.copy())) if getattr(fr, "loops", None) else None
            st = st.copy()
            st.dead = True
            return st
        if isinstance(s, ast.Expr):
            self.eval(s.value, st, fr)
            return st
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return st
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                    vs = [self.eval(x, st, fr) for x in s.value.elts]
                    for x, v in zip(t.elts, vs):
                        self.bind(x, v, st, fr)
                else:
                    self.bind(t, self.eval(s.value, st, fr), st, fr)
            return st
        if isinstance(s, ast.AugAssign):
            load = self.as_load(s.target)
            v = self.operation(s, [self.eval(load, st, fr), self.eval(s.value, st, fr)], st, fr)
            self.bind(s.target, v, st, fr)
            return st
        if isinstance(s, ast.If):
            self.eval(s.test, st, fr)
            a = self.branch(s.test, st.copy(), fr, True)
            b = self.branch(s.test, st.copy(), fr, False)
            a = self.block(s.body, a, fr) if a is not None else None
            b = self.block(s.orelse, b, fr) if b is not None else None
            if a is None and b is None:
                st = st.copy()
                st.dead = True
                return st
            j = self.joined(a, b)
            return j if j is not None else a if a is not None else b
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, st, fr)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.eval(it.context_expr, st, fr)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, st, fr)
            return self.block(s.body, st, fr)
        if isinstance(s, ast.Try):
            before = st.copy()
            a = self.block(s.body, st.copy(), fr)
            mid = self.joined(before, a)
            out = self.block(s.orelse, a, fr) if not a.dead else a
            for h in s.handlers:
                out = self.joined(out, self.block(h.body, (mid or before).copy(), fr)) or out
            return self.block(s.finalbody, out, fr) if s.finalbody and not out.dead else out
        if isinstance(s, ast.Assert):
            self.eval(s.test, st, fr)
            return self.branch(s.test, st, fr, True) or st
        if isinstance(s, ast.Delete):
            return st
        if isinstance(s, ast.Match):
            out = None
            for c in s.cases:
                out = self.joined(out, self.block(c.body, st.copy(), fr)) or out
            return self.joined(out, st) or st
        return st

    def loop(self, s, st, fr):
        if not hasattr(fr, "loops"):
            fr.loops = []
        out = None
        cur = st
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.eval(s.iter, cur, fr)
            self.on_loop(s, cur, fr)
        for _ in range(4):
            fr.loops.append([])
            n_ret = len(fr.returns)
            b = cur.copy()
            if isinstance(s, ast.While):
                self.eval(s.test, b, fr)
                b = self.branch(s.test, b, fr, True)
            else:
                self.bind(s.target, self.element(it, s.iter, b, fr), b, fr)
            exits = []
            if b is not None:
                e = self.block(s.body, b, fr)
                exits = fr.loops[-1]
            fr.loops.pop()
            nxt = cur
            if b is not None:
                nxt = self.joined(nxt, e) or nxt
            for k, x in exits:
                if k is ast.Continue:
                    nxt = self.joined(nxt, x) or nxt
            same = nxt.env == cur.env and nxt.attrs == cur.attrs
            if same:
                break
            del fr.returns[n_ret:]
            cur = nxt
        forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
        out = None
        if not forever:
            out = cur.copy()
            if isinstance(s, ast.While):
                out = self.branch(s.test, out, fr, False)
            if out is not None and s.orelse:
                out = self.block(s.orelse, out, fr)
        for k, x in exits:
            if k is ast.Break:
                out = self.joined(out, x) or x
        if out is None:
            out = cur.copy()
            out.dead = True
        self.loop_done(s, out, fr)
        return out

    def as_load(self, t):
        import copy
        t = copy.deepcopy(t)
        for n in ast.walk(t):
            if hasattr(n, "ctx"):
                n.ctx = ast.Load()
        self.keep = getattr(self, "keep", [])
        self.keep.append(t)
        return t

    def bind(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st, fr)
            for x, y in zip(t.elts, vs):
                self.bind(x.value if isinstance(x, ast.Starred) else x, y, st, fr)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.repo.self_name(fr.f):
                st.attrs[t.attr] = v
            self.store_attr(t, v, st, fr)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, st, fr)

    def unpack(self, v, n, st, fr):
        return [v] * n

    def set_root(self, e, v, st, fr):
        """an in-place change of the object behind an expression"""
        if isinstance(e, ast.Name):
            st.env[e.id] = v
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.repo.self_name(fr.f):
            st.attrs[e.attr] = v

    # ------------------------------------------------------------- expressions
    def eval(self, e, st, fr):
        if e is None:
            return self.const(ast.Constant(None))
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return st.env[e.id]
            return self.unknown_name(e.id, st, fr)
        if isinstance(e, ast.Constant):
            return self.const(e)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.repo.self_name(fr.f) and e.attr in st.attrs:
                return st.attrs[e.attr]
            base = self.eval(e.value, st, fr)
            return self.attribute(e, base, st, fr)
        if isinstance(e, ast.Subscript):
            base = self.eval(e.value, st, fr)
            self.eval(e.slice, st, fr)
            return self.subscript(e, base, st, fr)
        if isinstance(e, ast.Call):
            return self.call(e, st, fr)
        if isinstance(e, ast.IfExp):
            self.eval(e.test, st, fr)
            a = self.branch(e.test, st.copy(), fr, True)
            b = self.branch(e.test, st.copy(), fr, False)
            vs = [self.eval(x, s, fr) for x, s in ((e.body, a), (e.orelse, b)) if s is not None]
            return self.join(vs[0], vs[1]) if len(vs) == 2 else vs[0] if vs else self.TOP
        if isinstance(e, ast.BoolOp):
            vs = [self.eval(x, st, fr) for x in e.values]
            return self.operation(e, vs, st, fr)
        if isinstance(e, (ast.BinOp,)):
            return self.operation(e, [self.eval(e.left, st, fr), self.eval(e.right, st, fr)], st, fr)
        if isinstance(e, ast.UnaryOp):
            return self.operation(e, [self.eval(e.operand, st, fr)], st, fr)
        if isinstance(e, ast.Compare):
            return self.operation(e, [self.eval(x, st, fr) for x in [e.left] + e.comparators], st, fr)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return self.container(e, [self.eval(x, st, fr) for x in e.elts], st, fr)
        if isinstance(e, ast.Dict):
            return self.container(e, [self.eval(x, st, fr) for x in e.values if x is not None], st, fr)
        if isinstance(e, ast.Starred):
            return self.eval(e.value, st, fr)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = st.copy()
            for g in e.generators:
                it = self.eval(g.iter, inner, fr)
                self.bind(g.target, self.element(it, g.iter, inner, fr), inner, fr)
                for t in g.ifs:
                    self.eval(t, inner, fr)
            v = self.eval(e.value if isinstance(e, ast.DictComp) else e.elt, inner, fr)
            return self.container(e, [v], st, fr)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, st, fr)
            self.bind(e.target, v, st, fr)
            return v
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.eval(e.value, st, fr) if e.value is not None else self.const(ast.Constant(None))
            fr.yields.append((e, v))
            return self.on_yield(v, e, st, fr)
        if isinstance(e, ast.Await):
            return self.eval(e.value, st, fr)
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.eval(x, st, fr)
            return self.TOP
        return self.TOP

    def targets(self, e, fr):
        fn = e.func
        if isinstance(fn, ast.Attribute) and self.cls is not None:
            sn = self.repo.self_name(fr.f)
            if isinstance(fn.value, ast.Name) and fn.value.id == sn:
                t = self.cls.lookup(fn.attr)
                if t is not None:
                    return [t]
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                enc = self.repo.enclosing_class(fr.f)
                if enc is not None:
                    t = self.cls.lookup(fn.attr, after=enc)
                    return [t] if t is not None else []
        return self.repo.resolve_call(e, fr.f, fallback=False)

    def call(self, e, st, fr):
        ts = self.targets(e, fr)
        recv = self.eval(e.func.value, st, fr) if isinstance(e.func, ast.Attribute) else None
        args = [(None, a, self.eval(a, st, fr)) for a in e.args] + [(k.arg, k.value, self.eval(k.value, st, fr)) for k in e.keywords]
        r = self.before_call(e, ts, recv, args, st, fr)
        if r is not None:
            return r[0]
        fs = [t for t in ts if isinstance(t, Func)]
        if len(fs) == 1 and len(ts) == 1 and self.own(e, fs[0], fr) and fs[0] not in fr.chain() and sum(1 for _ in fr.chain()) < MAXDEPTH and self.opens(fs[0], e, fr) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in fs[0].walk()):
            return self.open(e, fs[0], args, st, fr)
        return self.external(e, ts, recv, args, st, fr)

    def own(self, e, t, fr):
        """a method of the same object, a function, or a static method"""
        if t.cls is None or t.is_static:
            return True
        fn = e.func
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == self.repo.self_name(fr.f):
                return True
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                return True
        return False

    def open(self, e, t, args, st, fr):
        m, star, dstar, extra, xkw = bind_args(e, t)
        vals = {id(n): v for _, n, v in args}
        env = {}
        for p in t.all_params:
            if p in m:
                env[p] = vals.get(id(m[p]), self.TOP)
            elif p in t.defaults:
                env[p] = self.default(t, p, st, fr)
        if t.kwarg:
            env.setdefault(t.kwarg, self.TOP)
        if t.vararg:
            env.setdefault(t.vararg, self.TOP)
        v, end, inner = self.function(t, env, st, fr, e)
        st.attrs = dict(end.attrs) if end is not None else st.attrs
        for p, a in m.items():          # objects changed in place by the helper
            if p in env and end is not None and p in end.env and end.env[p] != env[p] and not self.rebound(t, p):
                self.set_root(a, end.env[p], st, fr)
        return v if v is not None else self.TOP

    def default(self, t, p, st, fr):
        d = t.defaults[p]
        return self.const(d) if isinstance(d, ast.Constant) else self.TOP

    def rebound(self, t, p):
        for n in t.walk():
            if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store):
                return True
        return False
