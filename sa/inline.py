"""Helpers that are new since the checks were written (sa/baseline.json lists the functions and constants there were) have no
contract of their own: they are analysed where they are called. Calls of such a helper from its own module are replaced by its
body, and a new constant by its value, so that code moved into a helper is judged like the code it was moved from.

Only calls for which this keeps the meaning are replaced: the name is defined once in the package and only ever called; the
helper does not yield or rebind names of outer scopes; its returns are in places where the caller can take over; names of local
variables that both use are renamed."""
import ast
import copy
import json
from pathlib import Path

BASELINE = Path(__file__).with_name("baseline.json")
MAX_CALLS, MAX_SIZE, ROUNDS = 6, 400, 4


def described(modules):
    """names of all functions, and of the constants, of the package"""
    out = set()
    for m in modules.values():
        def walk(body, q):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(f"{m.name}:{q}{s.name}")
                    if not isinstance(s, ast.ClassDef):
                        out.update(f"{m.name}:{q}{s.name} {v}" for v in stores(s))
                    walk(s.body, q + s.name + ".")
                elif isinstance(s, (ast.Assign, ast.AnnAssign)) and not q:
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Name):
                            out.add(f"{m.name}:{t.id}")
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for fld in ("body", "orelse", "finalbody"):
                        walk(getattr(s, fld, []), q)
                    for h in getattr(s, "handlers", []):
                        walk(h.body, q)
        walk(m.tree.body, "")
    return out


def stores(f):
    return {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}


def baseline():
    return set(json.loads(BASELINE.read_text())) if BASELINE.exists() else None


class Uses:
    """how often every identifier is defined, called and mentioned in the package"""

    def __init__(self, modules):
        self.defs, self.calls, self.refs = {}, {}, {}
        for m in modules.values():
            called = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    called.add(id(n.func))
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.defs[n.name] = self.defs.get(n.name, 0) + 1
                elif isinstance(n, (ast.Name, ast.Attribute)):
                    k = n.id if isinstance(n, ast.Name) else n.attr
                    if id(n) in called:
                        self.calls.setdefault(k, []).append(m)
                    else:
                        self.refs[k] = self.refs.get(k, 0) + 1
                elif isinstance(n, ast.alias):
                    k = (n.asname or n.name).split(".")[-1]
                    self.refs[k] = self.refs.get(k, 0) + 1
                    self.refs[n.name.split(".")[-1]] = self.refs.get(n.name.split(".")[-1], 0) + 1
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    self.refs[n.value] = self.refs.get(n.value, 0) + 1
                elif isinstance(n, ast.arg):
                    self.refs[n.arg] = self.refs.get(n.arg, 0) + 1


def inline(modules, known):
    for _ in range(ROUNDS):
        uses = Uses(modules)
        changed = False
        for m in modules.values():
            done = constants(m, known, uses)
            for owner, f in helpers(m, known, uses):
                done |= Helper(m, owner, f).replace()
            done |= temporaries(m, known)
            m.touched |= done
            changed |= done
        if not changed:
            break
    return modules


def constants(m, known, uses):
    done = False
    for s in list(m.tree.body):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) or
                isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant)):
            continue
        nm = (s.targets[0] if isinstance(s, ast.Assign) else s.target).id
        if f"{m.name}:{nm}" in known or nm.startswith("__"):
            continue
        here = [n for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == nm]
        if len([n for n in here if not isinstance(n.ctx, ast.Load)]) != 1 or uses.refs.get(nm, 0) + len(uses.calls.get(nm, ())) != len(here):
            continue

        class Put(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.copy_location(ast.Constant(s.value.value), n) if n.id == nm and isinstance(n.ctx, ast.Load) else n
        m.tree.body.remove(s)
        Put().visit(m.tree)
        done = True
    return done


def temporaries(m, known):
    """a new local variable that only carries a value to the next statement is replaced by the value"""
    done = False

    def walk(body, q):
        nonlocal done
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                done |= Temporaries(s, f"{m.name}:{q}{s.name} ", known).run()
                walk(s.body, q + s.name + ".")
            elif isinstance(s, ast.ClassDef):
                walk(s.body, q + s.name + ".")
            else:
                for fld in ("body", "orelse", "finalbody"):
                    walk(getattr(s, fld, []), q)
                for h in getattr(s, "handlers", []):
                    walk(h.body, q)
    walk(m.tree.body, "")
    if done:
        ast.fix_missing_locations(m.tree)
    return done


class Temporaries:
    def __init__(self, f, key, known):
        self.f, self.done = f, False
        count, stored = {}, {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                d = count if isinstance(n.ctx, ast.Load) else stored
                d[n.id] = d.get(n.id, 0) + 1
        bad = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names} | {n.arg for n in ast.walk(f) if isinstance(n, ast.arg)}
        self.new = {v for v in stored if stored[v] == count.get(v) and v not in bad and key + v not in known}
        # one that is stored several times: every time for the next statement only
        many = {v for v in self.new if stored[v] > 1}
        if many:
            pairs = {}
            for n in ast.walk(f):
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(n, fld, None)
                    if isinstance(b, list):
                        for s, t in zip(b, b[1:]):
                            if self.use(s, t) is not None:
                                pairs[s.targets[0].id] = pairs.get(s.targets[0].id, 0) + 1
            self.new -= {v for v in many if pairs.get(v) != stored[v]}

    def run(self):
        if self.new:
            self.block(self.f.body)
        return self.done

    def block(self, b):
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for fld in ("body", "orelse", "finalbody"):
                x = getattr(s, fld, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                    self.block(x)
            for h in getattr(s, "handlers", []):
                self.block(h.body)
        i = len(b) - 2
        while i >= 0:
            if self.put(b[i], b[i + 1]):
                del b[i]
                self.done = True
            i -= 1

    def use(self, s, t):
        """where t uses the variable that s stores, if it can be replaced"""
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.new):
            return None
        v, e = s.targets[0].id, s.value
        if isinstance(t, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)):
            parts = [x for x in (t.value,) if x is not None] + (list(t.targets) if isinstance(t, ast.Assign) else [t.target] if isinstance(t, (ast.AugAssign, ast.AnnAssign)) else [])
        elif isinstance(t, ast.If):
            parts = [t.test]
        elif isinstance(t, ast.For):
            parts = [t.iter]
        else:
            return None
        uses = [n for p in parts for n in ast.walk(p) if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load)]
        if len(uses) != 1 or any(isinstance(n, ast.Name) and n.id == v and n is not uses[0] for n in ast.walk(t)):
            return None
        u = uses[0]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(e)):
            return None
        calls = any(isinstance(x, ast.Call) for x in ast.walk(e))
        for p in parts:
            for n in ast.walk(p):
                holds = n is not u and any(x is u for x in ast.walk(n))
                if holds and isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    if isinstance(n, ast.Lambda) or not any(x is u for x in ast.walk(n.generators[0].iter)):
                        return None
                if holds and isinstance(n, (ast.BoolOp, ast.IfExp)) and not any(x is u for x in ast.walk(n.values[0] if isinstance(n, ast.BoolOp) else n.test)):
                    return None
                if calls and isinstance(n, ast.Call) and not holds and hasattr(n, "lineno") and (n.lineno, n.col_offset) < (u.lineno, u.col_offset):
                    return None                              # would be evaluated before
        return u

    def put(self, s, t):
        u = self.use(s, t)
        if u is None:
            return False
        e = s.value

        class Put(ast.NodeTransformer):
            def visit_Name(self, n):
                return e if n is u else n
        for fld, x in ast.iter_fields(t):
            if isinstance(x, ast.expr):
                setattr(t, fld, Put().visit(x))
            elif fld == "targets":
                t.targets = [Put().visit(y) for y in x]
        return True


def helpers(m, known, uses):
    out = []

    def walk(body, q, cls):
        for s in body:
            if isinstance(s, ast.ClassDef):
                walk(s.body, q + s.name + ".", s)
            elif isinstance(s, ast.FunctionDef) and f"{m.name}:{q}{s.name}" not in known and suitable(s, cls):
                cs = uses.calls.get(s.name, [])
                if uses.defs.get(s.name) == 1 and cs and len(cs) <= MAX_CALLS and all(c is m for c in cs) and not uses.refs.get(s.name):
                    out.append((cls, s))
    walk(m.tree.body, "", None)
    return out


def suitable(f, cls):
    if f.name.startswith("__") or len(list(ast.walk(f))) > MAX_SIZE * 10:
        return False
    kinds = [d.id if isinstance(d, ast.Name) else None for d in f.decorator_list]
    if any(k != "staticmethod" for k in kinds) or f.args.posonlyargs:
        return False
    for n in ast.walk(f):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)) or isinstance(n, ast.Name) and n.id in ("locals", "__class__", f.name):
            return False
        if isinstance(n, ast.Attribute) and n.attr == f.name:
            return False                                    # recursive
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not f:
            return False
    return cls is None or bool(f.args.args) or "staticmethod" in kinds


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


def own_names(f):
    return {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(f) if isinstance(n, ast.arg)} | \
           {n.name for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}


class Rename(ast.NodeTransformer):
    def __init__(self, to):
        self.to = to

    def visit_Name(self, n):
        r = self.to.get(n.id)
        if r is None:
            return n
        if isinstance(r, str):
            return ast.copy_location(ast.Name(r, n.ctx), n)
        return ast.copy_location(copy.deepcopy(r), n)

    def visit_arg(self, n):
        if isinstance(self.to.get(n.arg), str):
            n.arg = self.to[n.arg]
        return n


class Helper:
    def __init__(self, m, owner, f):
        self.m, self.owner, self.f = m, owner, f
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)
        b = f.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b = b[1:]
        self.body = b or [ast.Pass()]

    # ------------------------------------------------------------------ finding the calls
    def replace(self):
        self.left, self.done = 0, 0
        for n in ast.walk(self.m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not self.f:
                self.caller = n
                self.nested = False
                n.body = self.block(n.body, n)
        self.left = sum(1 for n in ast.walk(self.m.tree) if isinstance(n, ast.Call) and self.is_call(n))
        if self.done and not self.left:
            (self.owner.body if self.owner is not None else self.m.tree.body).remove(self.f)
            if self.owner is not None and not self.owner.body:
                self.owner.body.append(ast.Pass())
        ast.fix_missing_locations(self.m.tree)
        return self.done > 0

    def is_call(self, c):
        if self.owner is None:
            return isinstance(c.func, ast.Name) and c.func.id == self.f.name
        return isinstance(c.func, ast.Attribute) and c.func.attr == self.f.name and isinstance(c.func.value, ast.Name)

    def block(self, body, holder):
        out = []
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(s)
                continue
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, fld, self.block(b, s))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body, h)
            out += self.stmt(s)
        return out

    def stmt(self, s):
        # the call is all there is to the statement
        if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)) and isinstance(s.value, ast.Call) and self.is_call(s.value):
            r = self.body_for(s)
            if r is not None:
                self.done += 1
                return r
        return self.inside(s)

    def inside(self, s):
        """calls within expressions: a helper that only computes a value"""
        if not (len(self.body) == 1 and isinstance(self.body[0], ast.Return) and self.body[0].value is not None):
            return self.ahead(s)
        outer = self

        class Put(ast.NodeTransformer):
            def visit_Call(self, c):
                self.generic_visit(c)
                if outer.is_call(c):
                    e = outer.value_for(c)
                    if e is not None:
                        outer.done += 1
                        return ast.copy_location(e, c)
                return c

            def visit_FunctionDef(self, n):
                return n

            visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef
        for fld, v in ast.iter_fields(s):
            if isinstance(v, ast.expr):
                setattr(s, fld, Put().visit(v))
            elif isinstance(v, list):
                setattr(s, fld, [Put().visit(x) if isinstance(x, (ast.expr, ast.withitem)) else x for x in v])
        return [s]

    def ahead(self, s):
        """a call that is the first thing a statement evaluates is done ahead of it"""
        if not isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.If, ast.For)):
            return [s]
        e = s.test if isinstance(s, ast.If) else s.iter if isinstance(s, ast.For) else s.value
        calls = [n for n in ast.walk(e) if isinstance(n, ast.Call) and self.is_call(n)] if e is not None else []
        if len(calls) != 1:
            return [s]
        c = calls[0]
        # nothing with an effect may be evaluated before it, and it must be evaluated in any case
        before = {id(n) for a in list(c.args) + [k.value for k in c.keywords] + [c.func] for n in ast.walk(a)}
        for n in ast.walk(e):
            if n is not c and id(n) not in before and isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and any(x is c for x in ast.walk(n)):
                return [s]
            if isinstance(n, (ast.BoolOp, ast.IfExp)):
                always = n.values[0] if isinstance(n, ast.BoolOp) else n.test
                if any(x is c for x in ast.walk(n)) and not any(x is c for x in ast.walk(always)):
                    return [s]
            if isinstance(n, ast.Call) and n is not c and id(n) not in before and not any(x is c for x in ast.walk(n)) and (n.lineno, n.col_offset) < (c.lineno, c.col_offset):
                return [s]
        tmp = self.free("value_of_" + self.f.name.strip("_"))
        r = self.body_for(ast.copy_location(ast.Assign([ast.Name(tmp, ast.Store())], c, lineno=s.lineno), s))
        if r is None:
            return [s]

        class Put(ast.NodeTransformer):
            def visit_Call(self, n):
                if n is c:
                    return ast.copy_location(ast.Name(tmp, ast.Load()), n)
                return self.generic_visit(n)
        e2 = Put().visit(e)
        if isinstance(s, ast.If):
            s.test = e2
        elif isinstance(s, ast.For):
            s.iter = e2
        else:
            s.value = e2
        self.done += 1
        return r + [s]

    # ------------------------------------------------------------------ arguments
    def bound(self, c):
        """parameter -> argument, or None"""
        a = self.f.args
        ps = [x.arg for x in a.args]
        out = {}
        if self.owner is not None and not self.static:
            out[ps[0]] = c.func.value
            ps = ps[1:]
        pos = list(c.args)
        star = None
        if pos and isinstance(pos[-1], ast.Starred):
            star = pos.pop().value
        if any(isinstance(x, ast.Starred) for x in pos) or len(pos) > len(ps):
            return None
        out.update(zip(ps, pos))
        dstar = None
        for k in c.keywords:
            if k.arg is None:
                if dstar is not None:
                    return None
                dstar = k.value
            elif k.arg in out or k.arg not in ps + [x.arg for x in a.kwonlyargs]:
                return None
            else:
                out[k.arg] = k.value
        if (star is None) != (a.vararg is None) or (dstar is None) != (a.kwarg is None):
            return None
        if star is not None:
            out[a.vararg.arg] = star
        if dstar is not None:
            out[a.kwarg.arg] = dstar
        d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                if p not in d or not isinstance(d[p], ast.Constant):
                    return None
                out[p] = d[p]
        return out

    def captured(self):
        """a global name the helper uses is a local one where it is called"""
        own = {n.id for n in ast.walk(self.f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.arg for n in ast.walk(self.f) if isinstance(n, ast.arg)}
        outer = {n.id for n in ast.walk(self.f) if isinstance(n, ast.Name)} - own
        c = self.caller
        return bool(outer & ({n.id for n in ast.walk(c) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.arg for n in ast.walk(c) if isinstance(n, ast.arg)}))

    def free(self, nm):
        taken = own_names(self.caller) | own_names(self.f)
        k, n = nm, 1
        while k in taken:
            n += 1
            k = f"{nm}_{n}"
        return k

    def value_for(self, c):
        b = self.bound(c)
        if b is None or self.captured():
            return None
        e = copy.deepcopy(self.body[0].value)
        count = {}
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                count[n.id] = count.get(n.id, 0) + 1
        scopes = [n for n in ast.walk(e) if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))]
        own = {x.id for n in ast.walk(e) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)} | {x.arg for n in ast.walk(e) if isinstance(n, ast.arg) for x in [n]} | \
              {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        if own & set(b):
            return None
        for p, v in b.items():
            if not simple(v) and (count.get(p, 0) > 1 or any(isinstance(x, ast.Name) and x.id == p for n in scopes for x in ast.walk(n) if True)):
                first = [n.generators[0].iter for n in scopes if hasattr(n, "generators")]
                if count.get(p, 0) > 1 or not any(isinstance(x, ast.Name) and x.id == p for it in first for x in ast.walk(it)):
                    return None
        mentioned = {x.id for v in b.values() for x in ast.walk(v) if isinstance(x, ast.Name)}
        e = Rename({v: self.free(v + "_") for v in own & mentioned}).visit(e)
        return Rename({p: v for p, v in b.items() if not (isinstance(v, ast.Name) and v.id == p)}).visit(e)

    # ------------------------------------------------------------------ bodies
    def body_for(self, s):
        c = s.value
        b = self.bound(c)
        if b is None or self.captured():
            return None
        last = isinstance(s, ast.Return)
        stored = {n.id for n in ast.walk(self.f) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | \
                 {h.name for h in ast.walk(self.f) if isinstance(h, ast.ExceptHandler) and h.name} | \
                 {(a.asname or a.name).split(".")[0] for n in ast.walk(self.f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        lam = {x.arg for n in ast.walk(self.f) if isinstance(n, ast.Lambda) for x in ast.walk(n.args) if isinstance(x, ast.arg)}
        taken = own_names(self.caller)
        ren, pre = {}, []
        for p, v in b.items():
            if p in lam:
                return None
            if isinstance(v, ast.Name) and v.id == p:
                if p in stored and not last:
                    ren[p] = self.free(p + "_")
                    pre.append((ren[p], v))
            elif simple(v) and p not in stored and not ({x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & stored):
                ren[p] = v
            else:
                ren[p] = self.free(p) if p in taken else p
                pre.append((ren[p], v))
        for v in stored - set(b):
            if v in taken and (not last or v in {x.id for a in b.values() for x in ast.walk(a) if isinstance(x, ast.Name)}):
                ren[v] = self.free(v + "_")
        body = [Rename(ren).visit(copy.deepcopy(x)) for x in self.body]
        for x in body:
            for h in ast.walk(x):
                if isinstance(h, ast.ExceptHandler) and isinstance(ren.get(h.name), str):
                    h.name = ren[h.name]
                if isinstance(h, ast.alias) and (h.asname or h.name) in ren:
                    return None
        if not last:
            body = tail(body, s)
            if body is None:
                return None
        elif ends_open(body):
            body.append(ast.copy_location(ast.Return(ast.Constant(None)), s))
        out = [ast.copy_location(ast.Assign([ast.Name(k, ast.Store())], v, lineno=s.lineno), s) for k, v in pre]
        return out + (body or [ast.copy_location(ast.Pass(), s)])


def ends_open(body):
    """whether the end of the block can be reached"""
    for st in body:
        if isinstance(st, (ast.Return, ast.Raise)):
            return False
        if isinstance(st, ast.If) and st.orelse and not ends_open(st.body) and not ends_open(st.orelse):
            return False
        if isinstance(st, ast.With) and not ends_open(st.body):
            return False
        if isinstance(st, ast.Try) and not ends_open(st.body + st.orelse) and all(not ends_open(h.body) for h in st.handlers):
            return False
    return True


def tail(body, s):
    """the body with every return replaced by what the statement s does with the value; None if it cannot be"""
    def given(v):
        v = v if v is not None else ast.Constant(None)
        if isinstance(s, ast.Expr):
            return [] if isinstance(v, (ast.Constant, ast.Name)) else [ast.copy_location(ast.Expr(v), s)]
        n = copy.copy(s)
        if isinstance(s, ast.Assign):
            n.targets = copy.deepcopy(s.targets)
        n.value = v
        return [n]

    def conv(b):
        out = []
        for i, st in enumerate(b):
            if isinstance(st, ast.Return):
                return out + given(st.value)
            if not any(isinstance(x, ast.Return) for x in ast.walk(st)):
                out.append(st)
                if isinstance(st, ast.Raise):
                    return out
                continue
            if isinstance(st, ast.If):
                rest = b[i + 1:]
                x = conv(st.body + (copy.deepcopy(rest) if ends_open(st.body) else []))
                y = conv(st.orelse + (rest if ends_open(st.orelse) else []))
                if x is None or y is None:
                    return None
                n = ast.copy_location(ast.If(st.test, x or [ast.Pass()], y), st)
                return out + [n]
            if isinstance(st, ast.With) and not ends_open(st.body):
                x = conv(st.body)
                if x is None:
                    return None
                st.body = x
                return out + [st]
            return None
        return out + given(None)
    return conv(body)
