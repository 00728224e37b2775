"""Path-sensitive abstract interpreter for code that picks elements out of a collection. Every value carries a symbolic length (a linear
form over atoms), whether its elements are distinct, and the regions of the original collection it is a subset of. Loops are summarised by
inductive invariants (length bounds, distinctness of what is collected)."""
import ast
import itertools
from .model import *

MAXPATHS = 220
MAXDEPTH = 5


class Lin:
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = {a: x for a, x in (c or {}).items() if x}
        self.k = k

    def __add__(self, o):
        o = o if isinstance(o, Lin) else Lin(k=o)
        c = dict(self.c)
        for a, x in o.c.items():
            c[a] = c.get(a, 0) + x
        return Lin(c, self.k + o.k)

    def __neg__(self):
        return Lin({a: -x for a, x in self.c.items()}, -self.k)

    def __sub__(self, o):
        return self + (-(o if isinstance(o, Lin) else Lin(k=o)))

    def times(self, n):
        return Lin({a: x * n for a, x in self.c.items()}, self.k * n)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.k == o.k

    def __hash__(self):
        return hash((frozenset(self.c.items()), self.k))

    def __repr__(self):
        return " + ".join([f"{x}*{a}" if x != 1 else a for a, x in sorted(self.c.items())] + [str(self.k)])


_n = itertools.count()


def atom(hint="len"):
    return Lin({f"{hint}#{next(_n)}": 1})


ROWWISE = {"maximum", "minimum", "absolute", "abs", "clip", "sqrt", "square", "exp", "log", "fmax", "fmin", "negative", "column_stack", "atleast_2d", "nan_to_num", "isnan", "isfinite", "sign"}


class Val:
    """kind: pop, idx, one (a single element), mask, fronts, num, tuple, list, other"""
    __slots__ = ("kind", "len", "dist", "src", "num", "prov", "pools", "roots", "items", "ident", "lit", "extra", "space")

    def __init__(self, kind="other", len=None, dist=None, src=frozenset(), num=None, prov=None, pools=frozenset(), roots=frozenset(), items=None, ident=None, lit=None, extra=None, space=frozenset()):
        self.space = space
        self.kind, self.dist, self.src, self.num, self.prov, self.pools, self.roots, self.items, self.lit, self.extra = kind, dist, src, num, prov, pools, roots, items, lit, extra
        self.len = len if len is not None else atom("len")
        self.ident = ident if ident is not None else next(_n)

    def but(self, **k):
        v = Val(self.kind, self.len, self.dist, self.src, self.num, self.prov, self.pools, self.roots, self.items, None, None, self.extra, self.space)
        for a, x in k.items():
            setattr(v, a, x)
        return v

    def __repr__(self):
        return f"<{self.kind} len={self.len} dist={self.dist} prov={self.prov} src={set(self.src)} pools={set(self.pools)} num={self.num}>"


def disjoint(a, b):
    for x in a:
        for y in b:
            for p, q in ((x, y), (y, x)):
                if p[0] == "cur" and q[0] == "past" and p[1] == q[1]:
                    return True
                if p[0] == "fr" and q[0] == "fr" and p[1] == q[1] and {p[2], q[2]} == {"last", "rest"}:
                    return True
                if p[0] == "mask" and q[0] == "mask" and p[1] == q[1] and p[2] != q[2]:
                    return True
                if p[0] == "not" and q[0] == "is" and p[1] == q[1]:
                    return True
                if p[0] == "slice" and q[0] == "slice" and p[1] == q[1] and p[2] != q[2] and p[3] == q[3]:
                    return True
    return False


def overlap(a, b):
    """the same elements for sure (as soon as there are any): two beginnings of the same sequence, or a survival's pick of a region and all or the first of that region"""
    for x in a:
        for y in b:
            if x[0] == y[0] == "slice" and x[1] == y[1] and x[2] == y[2] and x[3] != "0" and y[3] != "0":
                return True
    for p, q in ((a, b), (b, a)):
        if any(x[0] == "picked" for x in p):
            region = {x for x in p if x[0] != "picked"}
            other = {x for x in q if x[0] != "slice"}
            if other and other == region and all(x[0] == "mask" for x in other):
                return True
    return False


def covers(a, b):
    return any(x[0] == "all" and any(y[0] == "fr" and y[1] == x[1] for y in b) for x in a)


class St:
    def __init__(self):
        self.env, self.facts, self.events, self.cases, self.blind, self.sides = {}, [], [], [], False, []

    def copy(self):
        s = St()
        s.env, s.facts, s.events, s.cases, s.blind, s.sides = dict(self.env), list(self.facts), list(self.events), list(self.cases), self.blind, self.sides
        return s


def nonneg(a):
    return a.startswith("len") or a.startswith("n:")


def _ok(r):
    return r.k >= 0 and all(x > 0 and nonneg(a) for a, x in r.c.items())


def prove(e, facts, depth=2):
    """e >= 0"""
    if _ok(e):
        return True
    fs = [f for f in facts if any(a in f.c for a in e.c)]
    for f in fs:
        if _ok(e - f):
            return True
    if depth >= 2:
        for f in fs:
            r = e - f
            gs = [g for g in facts if any(a in g.c for a in r.c)]
            for g in gs:
                if _ok(r - g):
                    return True
                if depth >= 3:
                    q = r - g
                    for h in facts:
                        if any(a in h.c for a in q.c) and _ok(q - h):
                            return True
    return False


def excess(e, bound, facts):
    """the smallest provable c >= 0 with e <= bound + c, or None"""
    best = None
    d = bound - e
    cands = [Lin()] + list(facts)
    fs = cands[1:]
    for f in cands:
        r1 = d - f
        for g in [Lin()] + [g for g in fs if any(a in g.c for a in r1.c)]:
            r2 = r1 - g
            for h in [Lin()] + [h for h in fs if any(a in h.c for a in r2.c)] if len(fs) < 30 else [Lin()]:
                r = r2 - h
                if all(x > 0 and nonneg(a) for a, x in r.c.items()):
                    c = max(0, -r.k)
                    if best is None or c < best:
                        best = c
                        if c == 0:
                            return 0
    return best


def satisfiable(cs):
    """is there a rational point with every form >= 0 (Fourier-Motzkin)"""
    cs = list(dict.fromkeys(cs))
    while True:
        if any(not c.c and c.k < 0 for c in cs):
            return False
        vs = {a for c in cs for a in c.c}
        if not vs:
            return True
        best = None
        for a in vs:
            up = sum(1 for c in cs if c.c.get(a, 0) < 0)
            lo = sum(1 for c in cs if c.c.get(a, 0) > 0)
            if best is None or (up * lo, a) < best:
                best = (up * lo, a)
        a = best[1]
        if best[0] > 400:
            return None
        pos, neg, rest = [c for c in cs if c.c.get(a, 0) > 0], [c for c in cs if c.c.get(a, 0) < 0], [c for c in cs if a not in c.c]
        for p in pos:
            for q in neg:
                rest.append(p.times(-q.c[a]) + q.times(p.c[a]))
        cs = list(dict.fromkeys(rest))
        if len(cs) > 500:
            return None


def at_least(length, bound, st, exact):
    """the least that the path guarantees already exceeds the bound for some sizes"""
    for a, k in length.c.items():
        if a in exact or k != 1:
            continue
        for g in st.facts:
            if g.c.get(a) == 1 and len(g.c) > 1:
                s = st.copy()
                s.facts = [x for x in st.facts if a not in x.c]
                s.cases = [c for c in st.cases if not any(a in x.c for alt in c for x in alt)]
                if counterexample(length - Lin({a: 1}) - (g - Lin({a: 1})), bound, s, exact):
                    return True
    return False


def counterexample(length, bound, st, exact, extra=()):
    """True if, by everything that is known on this path, the length can exceed the bound and nothing relevant is unknown"""
    if st.blind:
        return False
    t = length - bound - 1
    facts = list(dict.fromkeys(list(st.facts) + list(extra)))
    # something unknown that is bounded on one side only does not say anything about the others
    while True:
        signs = {}
        for g in facts + [x for c in st.cases for alt in c for x in alt]:
            for a, k in g.c.items():
                if a not in exact and a not in t.c:
                    signs.setdefault(a, set()).add(k > 0)
        loose = {a for a, z in signs.items() if len(z) == 1 and (False in z or not nonneg(a) or True in z)}
        keep = [g for g in facts if not any(a in loose for a in g.c)]
        if len(keep) == len(facts):
            break
        facts = keep
    fixed = {a for g in facts if -g in facts for a in g.c}
    exact = exact | fixed
    atoms = set(t.c)
    grown = True
    while grown:
        grown = False
        for g in facts + [x for c in st.cases for alt in c for x in alt]:
            if any(a in atoms for a in g.c) and not set(g.c) <= atoms:
                atoms |= set(g.c)
                grown = True
    if not atoms <= exact:
        return False
    facts = [g for g in facts if any(a in atoms for a in g.c)] + [Lin({a: 1}) for a in atoms if nonneg(a)]
    cases = [c for c in st.cases if any(a in atoms for alt in c for x in alt for a in x.c)]
    if len(cases) > 6:
        return False
    for combo in itertools.product(*cases):
        if satisfiable([t] + facts + [x for alt in combo for x in alt]) is True:
            return True
    return False


class TooMany(Exception):
    pass


class Lens:
    """subclass or configure: on_finding(rule, f, node, text)"""

    def __init__(self, repo, cls, report=None, hooks=None):
        self.repo, self.cls = repo, cls
        self.report = report or (lambda *a: None)
        self.hooks = hooks
        self.paths = 0
        self.quiet = 0
        self.stats = {}
        self.over = None
        self.exceed = set()
        self.exact = set()
        self.heads = set()
        self.twice = set()
        self.measured, self.renumbered, self.counts, self.upto = set(), set(), {}, {}

    def free(self, hint="len"):
        a = atom(hint)
        self.exact |= set(a.c)
        return a

    def unknown(self, t, st, f):
        """a condition that was not translated: it may say something about the lengths"""
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                if n.id in ("problem", "algorithm", "np", "isinstance", "len", "bool", "hasattr", "str", "int") or n.id == self.repo.self_name(f):
                    continue
                v = st.env.get(n.id)
                if v is None or v.kind == "other" and v.roots <= {n.id} and v.num is None and n.id in f.all_params:
                    continue
                st.blind = True
        return True

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # ------------------------------------------------------------- functions
    def function(self, f, env, facts=(), chain=()):
        st = St()
        st.env, st.facts = dict(env), list(facts)
        outs = []
        for s, how, v, n in self.block(f.body, st, f, chain + (f,)):
            if how == "raise":
                continue
            if how == "fall":
                v = Val("none")
            outs.append((s, v, n))
        return outs

    def block(self, body, st, f, chain):
        """[(state, how, value, node)]; how: fall, return, raise, break, continue"""
        cur = [st]
        out = []
        for s in body:
            nxt = []
            for c in cur:
                for r in self.stmt(s, c, f, chain):
                    if r[1] == "fall":
                        nxt.append(r[0])
                    else:
                        out.append(r)
            cur = nxt
            self.paths = max(self.paths, len(cur))
            if len(cur) > MAXPATHS:
                raise TooMany(f.id)
            if not cur:
                break
        return out + [(c, "fall", None, None) for c in cur]

    def stmt(self, s, st, f, chain):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            out = []
            for side, val in ((True, s.value.body), (False, s.value.orelse)):
                c = st.copy()
                if self.assume(s.value.test, c, f, chain, side):
                    out += self.stmt(ast.copy_location(ast.Return(value=val), s), c, f, chain)
            return out
        if isinstance(s, ast.Return):
            v = self.eval(s.value, st, f, chain) if s.value is not None else Val("none")
            return [(st, "return", v, s)]
        if isinstance(s, ast.Raise):
            return [(st, "raise", None, s)]
        if isinstance(s, ast.Break):
            return [(st, "break", None, s)]
        if isinstance(s, ast.Continue):
            return [(st, "continue", None, s)]
        if isinstance(s, ast.Expr):
            self.eval(s.value, st, f, chain)
            return [(st, "fall", None, None)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [(st, "fall", None, None)]
            if isinstance(s.value, ast.IfExp):
                out = []
                for side, val in ((True, s.value.body), (False, s.value.orelse)):
                    c = st.copy()
                    if self.assume(s.value.test, c, f, chain, side):
                        v = self.eval(val, c, f, chain)
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            self.bind(t, v, c, f, chain, s)
                        out.append((c, "fall", None, None))
                return out
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    vs = [self.eval(x, st, f, chain) for x in s.value.elts]
                    for x, v in zip(t.elts, vs):
                        self.bind(x, v, st, f, chain, s)
                else:
                    self.bind(t, self.eval(s.value, st, f, chain), st, f, chain, s)
            return [(st, "fall", None, None)]
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                a = st.env.get(s.target.id, Val())
                b = self.eval(s.value, st, f, chain)
                if isinstance(s.op, ast.Add) and a.kind in ("list", "idx", "pop") and a.num is None:
                    self.extend(s.target, a, b, st, f, s)
                else:
                    st.env[s.target.id] = self.arith(s.op, a, b)
            else:
                self.bind(s.target, Val(), st, f, chain, s)
            return [(st, "fall", None, None)]
        if isinstance(s, ast.If):
            out = []
            for side, body in ((True, s.body), (False, s.orelse)):
                c = st.copy()
                if self.assume(s.test, c, f, chain, side):
                    out += self.block(body, c, f, chain)
            if not st.blind and all(r[1] == "fall" for r in out):
                base = {id(v) for v in st.env.values()}
                if not any(v.kind in ("pop", "idx", "list", "mask", "fronts", "one") and id(v) not in base for r in out for v in r[0].env.values()):
                    for r in out:
                        r[0].blind = False
            return out
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st, f, chain)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in st.env:
                    a = st.env[t.value.id]
                    if a.kind in ("list", "idx", "pop") and not isinstance(t.slice, ast.Slice):
                        st.events.append(("removed", t.value.id, None))
                        st.env[t.value.id] = a.but(len=a.len - 1)
                    else:
                        st.env[t.value.id] = self.part(a, st)
            return [(st, "fall", None, None)]
        if isinstance(s, ast.With):
            return self.block(s.body, st, f, chain)
        if isinstance(s, ast.Try):
            out = self.block(s.body, st.copy(), f, chain)
            for h in s.handlers:
                out += self.block(h.body, st.copy(), f, chain)
            return out
        if isinstance(s, ast.Assert):
            return [(st, "fall", None, None)] if self.assume(s.test, st, f, chain, True) else []
        return [(st, "fall", None, None)]

    # ------------------------------------------------------------- binding
    def bind(self, t, v, st, f, chain, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                self.bind(x, v.items[k] if v.items is not None and len(v.items) == len(t.elts) else Val(roots=v.roots), st, f, chain, s)
        elif isinstance(t, ast.Attribute):
            if self.hooks is not None:
                self.hooks.store_attr(self, t, v, st, f, s)
            if isinstance(t.value, ast.Name) and t.value.id == self.repo.self_name(f):
                st.env["self." + t.attr] = v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and (st.env.get(t.value.id, Val()).extra or {}).get("front"):
            self.renumbered.add(st.env[t.value.id].extra["of"])
            st.env[t.value.id] = st.env[t.value.id].but(space=frozenset())
        elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and isinstance(t.value, ast.Name) and st.env.get(t.value.id, Val()).kind in ("list", "idx"):
            st.env[t.value.id] = Val("other", roots=frozenset([t.value.id]), prov=v.prov)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, f, chain)
            ix = self.eval(t.slice, st, f, chain) if not isinstance(t.slice, ast.Slice) else None
            if isinstance(t.value, ast.Name) and (base.kind == "mask" and v.lit is not True or isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value in (False, 0, True, 1)):
                st.events.append(("removed", t.value.id, ix))
            if self.hooks is not None:
                self.hooks.store_sub(self, t, base, v, st, f, s)
            if ix is not None:
                self.indexed(t, base, ix, st, f)
            root = t.value
            while isinstance(root, ast.Subscript):
                root = root.value
            if root is not t.value and isinstance(root, ast.Name) and st.env.get(root.id, Val()).kind == "fronts":
                self.renumbered.add(st.env[root.id].ident)
            if isinstance(t.value, ast.Name) and base.kind == "mask" and (base.lit == "fresh" or base.ident in self.counts):
                nv = base.but(pools=frozenset())
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value is True and ix is not None and ix.kind in ("idx", "list", "one") and ix.num is None:
                    self.counts[nv.ident] = self.counted(base) + (ix.len if ix.kind != "one" else 1)
                st.env[t.value.id] = nv
            if isinstance(t.value, ast.Name) and base.kind == "pop":
                p = base.prov and v.prov if v.kind in ("pop", "one") else base.prov if v.kind == "other" else base.prov
                if v.prov is False:
                    p = False
                st.env[t.value.id] = base.but(prov=p, dist=None, len=base.len)

    # ------------------------------------------------------------- conditions
    def linear(self, t, st, f, chain, taken):
        """alternatives of linear facts, None if the condition is not linear"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.linear(t.operand, st, f, chain, not taken)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.eval(t.left, st, f, chain), self.eval(t.comparators[0], st, f, chain)
            if a.num is None or b.num is None:
                return None
            d = a.num - b.num
            neg = {ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            k = type(t.ops[0]) if taken else neg.get(type(t.ops[0]))
            return {ast.Gt: [[d - 1]], ast.GtE: [[d]], ast.Lt: [[-d - 1]], ast.LtE: [[-d]], ast.Eq: [[d, -d]], ast.NotEq: [[d - 1], [-d - 1]]}.get(k)
        if isinstance(t, ast.Name):
            v = self.eval(t, st, f, chain)
            if v.kind in ("idx", "pop", "list") and v.num is None:
                return [[v.len - 1]] if taken else [[-v.len]]
        return None

    def assume(self, t, st, f, chain, taken):
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, taken = t.operand, not taken
        if isinstance(t, ast.BoolOp):
            if taken == isinstance(t.op, ast.And):
                return all(self.assume(x, st, f, chain, taken) for x in t.values)
            alts = []
            for x in t.values:
                a = self.linear(x, st, f, chain, taken)
                if a is None:
                    return self.unknown(t, st, f)
                alts += a
            st.cases.append(alts)
            return True
        if isinstance(t, ast.Constant):
            return bool(t.value) == taken
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.eval(t.left, st, f, chain), self.eval(t.comparators[0], st, f, chain)
            op = t.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and b.kind == "none":
                isn = taken == isinstance(op, ast.Is)
                if a.kind == "none":
                    return isn
                return not isn if a.kind != "other" else True
            if a.num is not None and b.num is not None:
                d = a.num - b.num
                neg = {ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
                k = type(op) if taken else neg.get(type(op))
                new = {ast.Gt: [d - 1], ast.GtE: [d], ast.Lt: [-d - 1], ast.LtE: [-d], ast.Eq: [d, -d]}.get(k, [])
                for e in new:
                    if not e.c and e.k < 0:
                        return False
                    if prove(-e - 1, st.facts):
                        return False
                    st.facts.append(e)
                if k is ast.NotEq and _ok(d):
                    st.facts.append(d - 1)
                elif k is ast.NotEq and _ok(-d):
                    st.facts.append(-d - 1)
                elif k is ast.NotEq:
                    st.cases.append([[d - 1], [-d - 1]])
                elif k is None:
                    self.unknown(t, st, f)
                return True
            return self.unknown(t, st, f)
        v = self.eval(t, st, f, chain)
        if v.kind in ("idx", "pop", "list") and v.num is None:
            e = v.len - 1 if taken else -v.len
            if not e.c and e.k < 0:
                return False
            st.facts.append(e)
        if v.kind == "none":
            return not taken
        if v.lit is not None and isinstance(v.lit, bool):
            return v.lit == taken
        if isinstance(t, ast.Name) and v.kind == "other" and v.lit is None:
            st.env[t.id] = v.but(lit=taken, ident=v.ident)
        if v.kind in ("idx", "pop", "list") and v.num is None:
            return True
        return self.unknown(t, st, f)

    # ------------------------------------------------------------- loops
    def assigned(self, body):
        names, mutated = set(), set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "extend", "remove", "pop", "insert", "add", "discard", "update", "clear", "sort"):
                    mutated.add(n.func.value.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Subscript) and isinstance(n.func.value.value, ast.Name) and n.func.attr in ("append", "extend"):
                    mutated.add(n.func.value.value.id)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    mutated.add(n.value.id)
                if isinstance(n, ast.Call):
                    for a in n.args:
                        if isinstance(a, ast.Name) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "min", "max", "int", "range", "enumerate", "list", "set", "sorted", "zip", "sum", "any", "all")):
                            pass
        return names, mutated

    def loop(self, s, st, f, chain):
        body = s.body
        names, mutated = self.assigned(body)
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) for a in n.args):
                    ts = [t for t in self.targets(n, f) if isinstance(t, Func)]
                    for t in ts[:3]:
                        ch = self.changes(t)
                        if ch:
                            mutated |= {x.id for p, x in bind_args(n, t)[0].items() if p in ch and isinstance(x, ast.Name)}
        for n in mutated:
            if (getattr(st.env.get(n), "extra", None) or {}).get("front"):
                self.renumbered.add(st.env[n].extra["of"])
        lid = next(_n)
        it = self.eval(s.iter, st, f, chain) if isinstance(s, ast.For) else None
        bounds = [(k, Lin({a: 1})) for k, a in getattr(self, "limits", {}).items()]
        # candidate invariants for what is collected
        accs = {}
        for n in sorted((names | mutated)):
            v = st.env.get(n)
            if v is not None and v.kind in ("list", "idx", "pop") and v.num is None:
                bs = self.numbers(st, f, names)
                bs = bs + ([self.over + 1] if self.over is not None else [])
                accs[n] = {"entry": v, "dist": v.dist is True, "ub": [b for b in bs if prove(b - v.len, st.facts)], "grow": True}
        self.quiet += 1
        try:
            for _ in range(5):
                head, outs = self.round(s, st, f, chain, names, mutated, lid, it, accs, st)
                changed = False
                for n, a in accs.items():
                    for c, how, v, node in outs:
                        if how not in ("fall", "continue"):
                            continue
                        w = c.env.get(n)
                        if w is None:
                            continue
                        keep = [b for b in a["ub"] if prove(b - w.len, c.facts, 3)]
                        if len(keep) != len(a["ub"]):
                            a["ub"], changed = keep, True
                        if a["dist"] and not self.kept_distinct(n, head, c, lid, f):
                            a["dist"], changed = False, True
                if not changed:
                    break
        finally:
            self.quiet -= 1
        head, outs = self.round(s, st, f, chain, names, mutated, lid, it, accs, st)
        # growth per iteration
        for n, a in accs.items():
            ds = []
            for c, how, v, node in outs:
                if how in ("fall", "continue") and n in c.env:
                    d = c.env[n].len - head.env[n].len
                    ds.append(d.k if not d.c else None)
            a["step"] = max(ds) if ds and all(d is not None for d in ds) else None
            a["every"] = ds[0].__class__ is int and len(set(ds)) == 1 and all(how in ("fall", "continue", "raise") for c, how, v, node in outs) if ds else False
            a["evidence"] = [self.evidence(n, head, c, lid, f) for c, how, v, node in outs if how in ("fall", "continue")]
            if self.over is not None and not a["ub"]:
                h = head.env[n].len
                for c, how, v, node in outs:
                    if how in ("fall", "continue") and n in c.env and c.env[n].len != h:
                        w = c.env[n].len
                        if prove(w - self.over - 1, c.facts, 3) or counterexample(w, self.over, c, self.exact | set(h.c), [self.over - h]):
                            a["over"] = True
        # after the loop
        res = []
        ends = []
        forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
        if not forever:
            ex = self.head_state(s, st, f, names, mutated, lid, accs, final=True, it=it)
            ok = True
            if isinstance(s, ast.While):
                ok = self.assume(s.test, ex, f, chain, False)
            if ok:
                ends.append(ex)
        for c, how, v, node in outs:
            if how == "break":
                ends.append(c)
            elif how in ("return", "raise"):
                res.append((c, how, v, node))
        for e in ends:
            if s.orelse:
                res += self.block(s.orelse, e, f, chain)
            else:
                res.append((e, "fall", None, None))
        return res

    def numbers(self, st, f, changing):
        """symbolic numbers that do not change in the loop: parameters and locals"""
        out = []
        for n, v in st.env.items():
            if v.num is not None and n not in changing and v.num.c:
                if v.num not in out:
                    out.append(v.num)
        return out[:12]

    def head_state(self, s, st, f, names, mutated, lid, accs, final=False, it=None):
        h = st.copy()
        for n in names | mutated:
            v = h.env.get(n)
            if v is None:
                continue
            if n in accs:
                a = accs[n]
                e = a["entry"]
                nv = Val(e.kind, atom("len"), True if a["dist"] else a.get("final_dist") if final else None, e.src | {("past", lid)} if e.len == Lin() else frozenset(), None, e.prov if not final else a.get("prov", e.prov), e.pools, frozenset([n]))
                if e.len == Lin() and a["dist"]:
                    nv.src = frozenset([("past", lid)])
                nv.extra = {"acc": n, "grown": a}
                if e.kind == "pop" and n not in names:
                    nv.ident, nv.len = e.ident, e.len
                for b in a["ub"]:
                    h.facts.append(b - nv.len)
                if final and a.get("step") is not None and it is not None and it.len is not None:
                    h.facts.append(e.len + it.len.times(max(a["step"], 0)) - nv.len)
                    if a.get("every") and a["step"] > 0 and isinstance(s, ast.For):
                        h.facts.append(nv.len - e.len - it.len.times(a["step"]))
                if final and a.get("evidence") and any(x is False for x in a["evidence"]):
                    nv.dist = False
                if final and a.get("over"):
                    self.exceed |= set(nv.len.c)
                if final and not a["ub"]:
                    nv.extra = {"acc": n, "open": a}
                if final:
                    nv.space = e.space | a.get("space", frozenset())
                h.env[n] = nv
            elif v.num is not None:
                h.env[n] = Val("num", num=atom("num"), roots=frozenset([n]))
            elif v.kind in ("mask", "fronts", "buckets"):
                k = "fronts" if v.kind == "buckets" and final else v.kind
                h.env[n] = v.but(kind=k)
                if v.kind == "buckets":
                    was = (v.extra or {}).get("was", v.ident)
                    h.env[n].extra = {**(v.extra or {}), "was": was, **({"twice": True} if was in self.twice else {})}
            elif v.kind == "rows" and n not in names:
                h.env[n] = v.but()
            else:
                h.env[n] = Val(v.kind if v.kind in ("mask", "other") else "other", roots=frozenset([n]), prov=v.prov)
        return h

    def round(self, s, st, f, chain, names, mutated, lid, it, accs, entry):
        head = self.head_state(s, st, f, names, mutated, lid, accs)
        head.events = []
        for n in accs:
            if n in head.env:
                self.heads |= set(head.env[n].len.c)
        b = head.copy()
        if isinstance(s, ast.While):
            if not self.assume(s.test, b, f, chain, True):
                return head, []
        else:
            self.bind_loop(s, it, b, f, chain, lid)
        outs = self.block(s.body, b, f, chain)
        # provenance of what is collected
        for n, a in accs.items():
            ps = [a["entry"].prov if a["entry"].len != Lin() else True]
            for c, how, v, node in outs:
                w = c.env.get(n)
                if w is not None:
                    ps.append(w.prov)
                    a["space"] = a.get("space", frozenset()) | w.space
            a["prov"] = False if any(p is False for p in ps) else True if all(p is True for p in ps) else None
        for c, how, v, node in outs:
            c.events = entry.events + c.events
        return head, outs

    def bind_loop(self, s, it, st, f, chain, lid):
        t, e = s.target, s.iter
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "enumerate" and e.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            v = self.eval(e.args[0], st, f, chain)
            if isinstance(t.elts[0], ast.Name):
                st.env[t.elts[0].id] = Val("one", num=atom("n:i"), src=frozenset([("cur", lid)]), dist=True, roots=frozenset([t.elts[0].id]), extra={"loop": lid})
            self.bind(t.elts[1], self.item(v, lid), st, f, chain, s)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and isinstance(t, ast.Name):
            st.env[t.id] = Val("one", num=atom("n:i"), src=frozenset([("cur", lid)]), dist=True, roots=frozenset([t.id]), extra={"loop": lid})
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "zip" and isinstance(t, ast.Tuple):
            for x, y in zip(t.elts, e.args):
                self.bind(x, self.item(self.eval(y, st, f, chain), lid), st, f, chain, s)
            return
        self.bind(t, self.item(it, lid), st, f, chain, s)

    def item(self, v, lid):
        if v.kind == "fronts":
            return Val("idx", self.measure(self.free()), dist=not (v.extra or {}).get("twice"), src=frozenset([("cur", lid)]), extra={"front": True, "of": v.ident}, roots=frozenset([("loop", lid)]), space=self.numbering(v))
        if v.kind in ("idx", "list"):
            return Val("one", src=v.src | ({("cur", lid)} if v.dist else set()), dist=v.dist, prov=v.prov, pools=v.pools, roots=frozenset([("loop", lid)]), space=v.space)
        if v.kind == "pop":
            return Val("one", src=v.src | ({("cur", lid)} if v.dist else set()), dist=v.dist, prov=v.prov, roots=frozenset([("loop", lid)]), extra={"ind": True})
        return Val(roots=frozenset([("loop", lid)]))

    def pieces(self, n, c):
        return [e[2] for e in c.events if e[0] == "collected" and e[1] == n]

    def evidence(self, n, head, c, lid, f):
        """True: what is collected stays distinct; False: it can be collected twice; None: not decided"""
        ps = self.pieces(n, c)
        if not ps:
            if c.env.get(n) is not None and c.env[n].ident != head.env[n].ident and c.env[n].dist is False and c.env[n].len != Lin():
                return False
            return True if c.env.get(n) is not None and (c.env[n].ident == head.env[n].ident or c.env[n].dist) else None
        out = True
        for k, p in enumerate(ps):
            if p.dist is False:
                return False
            r = None
            if ("cur", lid) in p.src and p.dist:
                r = True
            elif p.pools and p.dist is not False:
                gone = [e for e in c.events if e[0] == "removed" and e[1] in p.pools]
                if gone:
                    r = True
                elif not any(c.env.get(q) is not None and head.env.get(q) is not None and c.env[q].ident != head.env[q].ident for q in p.pools):
                    r = False
            elif p.dist and disjoint(p.src, head.env[n].src):
                r = True
            if r is False:
                return False
            if r is None:
                out = None
            for q in ps[:k]:
                if not disjoint(p.src, q.src):
                    if p.ident == q.ident:
                        return False
                    out = None
        return out

    def kept_distinct(self, n, head, c, lid, f):
        return self.evidence(n, head, c, lid, f) is True

    # ------------------------------------------------------------- collections
    def extend(self, target, a, b, st, f, node, one=False):
        if not isinstance(target, ast.Name):
            return
        ln = a.len + (1 if one else b.len)
        d = None
        if a.len == Lin():
            d = b.dist if not one else True
            src = b.src
        else:
            src = a.src & b.src
            if a.dist is False or b.dist is False:
                d = False
            elif a.dist and (b.dist or one) and disjoint(a.src, b.src):
                d = True
            elif a.ident == b.ident or overlap(a.src, b.src):
                d = False
        prov = b.prov if a.len == Lin() else False if False in (a.prov, b.prov) else True if a.prov and b.prov else None
        kind = a.kind
        if a.kind == "list" and b.kind in ("pop",) or one and b.kind == "one" and (b.extra or {}).get("ind"):
            kind = "pop" if a.len == Lin() or a.kind == "pop" else a.kind
        if d is None and not one and a.len != Lin() and (not a.space or not b.space or a.space == b.space) and self.anything(b) and a.src and all(x[0] == "mask" for x in a.src):
            d = False
        v = Val(kind, ln, d, src, None, prov, frozenset(), frozenset([target.id]), space=a.space | b.space)
        if a.extra and "open" in a.extra:
            v.extra = a.extra
        st.env[target.id] = v
        st.events.append(("collected", target.id, b if not one else b.but(dist=True if b.dist is None else b.dist, ident=b.ident)))

    def anything(self, b):
        """the first ones of an order of everything"""
        return any(x[0] == "perm" for x in b.src) and any(x[0] == "slice" and x[2] == "head" for x in b.src) and all(x[0] in ("perm", "slice") for x in b.src)

    def arith(self, op, a, b):
        if a.num is not None and b.num is not None:
            if isinstance(op, ast.Add):
                return Val("num", num=a.num + b.num, roots=a.roots | b.roots)
            if isinstance(op, ast.Sub):
                return Val("num", num=a.num - b.num, roots=a.roots | b.roots)
            if isinstance(op, ast.Mult) and (not a.num.c or not b.num.c):
                return Val("num", num=a.num.times(b.num.k) if not b.num.c else b.num.times(a.num.k), roots=a.roots | b.roots)
        return Val(roots=a.roots | b.roots, len=a.len if a.kind in ("rows", "mask") else b.len if b.kind in ("rows", "mask") else None, kind="rows" if "rows" in (a.kind, b.kind) else "other", pools=a.pools | b.pools)

    def rows(self, v):
        return Val("rows", v.len, roots=v.roots, src=v.src)

    # ------------------------------------------------------------- expressions
    def eval(self, e, st, f, chain):
        if e is None:
            return Val("none")
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is None:
                v = Val(roots=frozenset([e.id]))
                st.env[e.id] = v
            if v.kind == "mask" and v.pools == frozenset():
                return v.but(pools=frozenset([e.id]), ident=v.ident, lit=v.lit)
            return v
        if isinstance(e, ast.Constant):
            if e.value is None:
                return Val("none")
            if isinstance(e.value, bool):
                return Val("other", lit=e.value)
            if isinstance(e.value, int):
                return Val("num", num=Lin(k=e.value), lit=e.value)
            return Val("other", lit=e.value)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.repo.self_name(f):
                return st.env.get("self." + e.attr) or Val(roots=frozenset(["self." + e.attr]))
            b = self.eval(e.value, st, f, chain)
            if e.attr == "shape":
                return Val("tuple", items=[Val("num", num=b.len), Val("num", num=atom("n:cols"))])
            if e.attr == "size" and b.kind in ("idx", "list"):
                return Val("num", num=b.len)
            if e.attr == "T":
                return Val(roots=b.roots)
            return Val(roots=b.roots)
        if isinstance(e, ast.Subscript):
            return self.subscript(e, st, f, chain)
        if isinstance(e, ast.Call):
            return self.call(e, st, f, chain)
        if isinstance(e, ast.IfExp):
            vs = []
            for side, x in ((True, e.body), (False, e.orelse)):
                c = st.copy()
                if self.assume(e.test, c, f, chain, side):
                    vs.append(self.eval(x, c, f, chain))
            return vs[0] if len(vs) == 1 else self.either(vs, st)
        if isinstance(e, ast.BinOp):
            a, b = self.eval(e.left, st, f, chain), self.eval(e.right, st, f, chain)
            if isinstance(e.op, ast.Add) and a.num is None and b.num is None and (a.kind in ("list", "pop") and b.kind in ("list", "pop", "idx")):
                return self.merged([a, b])
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return Val("mask", a.len if a.kind == "mask" else b.len, roots=a.roots | b.roots, pools=a.pools | b.pools)
            return self.arith(e.op, a, b)
        if isinstance(e, ast.UnaryOp):
            v = self.eval(e.operand, st, f, chain)
            if isinstance(e.op, ast.USub) and v.num is not None:
                return Val("num", num=-v.num, roots=v.roots)
            if isinstance(e.op, ast.Invert):
                return Val("mask", v.len, lit=v.lit if v.kind == "mask" else None, roots=v.roots, pools=v.pools, extra={"not": v.ident})
            return Val(v.kind if v.kind == "rows" else "other", v.len, roots=v.roots)
        if isinstance(e, ast.Compare):
            vs = [self.eval(x, st, f, chain) for x in [e.left] + e.comparators]
            ln = next((v.len for v in vs if v.kind in ("rows", "mask", "idx")), None)
            return Val("mask", ln, lit="fresh", roots=frozenset().union(*[v.roots for v in vs]), pools=frozenset().union(*[v.pools for v in vs]))
        if isinstance(e, ast.BoolOp):
            vs = [self.eval(x, st, f, chain) for x in e.values]
            return self.either(vs, st)
        if isinstance(e, (ast.List, ast.Tuple)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.merged([self.eval(x.value if isinstance(x, ast.Starred) else x, st, f, chain) for x in e.elts])
            vs = [self.eval(x, st, f, chain) for x in e.elts]
            if isinstance(e, ast.Tuple):
                return Val("tuple", Lin(k=len(vs)), items=vs)
            v = Val("list", Lin(k=len(vs)), True if len(vs) <= 1 else None, items=vs, roots=frozenset().union(*[x.roots for x in vs]) if vs else frozenset(), src=vs[0].src if len(vs) == 1 else frozenset(), pools=vs[0].pools if len(vs) == 1 else frozenset())
            v.prov = (vs[0].prov if len(vs) == 1 else True if vs and all(x.prov for x in vs) else False if any(x.prov is False for x in vs) else None) if vs else True
            return v
        if isinstance(e, ast.Set):
            return Val("list", roots=frozenset())
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.comprehension(e, st, f, chain)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, st, f, chain)
            self.bind(e.target, v, st, f, chain, e)
            return v
        if isinstance(e, ast.Starred):
            return self.eval(e.value, st, f, chain)
        if isinstance(e, ast.Lambda):
            return Val()
        return Val()

    def either(self, vs, st):
        if not vs:
            return Val()
        a = vs[0]
        for b in vs[1:]:
            if a.ident == b.ident:
                continue
            k = a.kind if a.kind == b.kind else "other"
            ln = a.len if a.len == b.len else atom("len")
            p = False if False in (a.prov, b.prov) else True if a.prov and b.prov else None
            a = Val(k, ln, a.dist if a.dist == b.dist else None, a.src & b.src, a.num if a.num is not None and a.num == b.num else None, p, a.pools & b.pools, a.roots | b.roots, space=a.space | b.space)
            if k == "num" and a.num is None:
                a.num = atom("num")
        return a

    def comprehension(self, e, st, f, chain):
        g = e.generators[0]
        it = self.eval(g.iter, st, f, chain)
        c = st.copy()
        lid = next(_n)

        class S:
            target, iter = g.target, g.iter
        self.bind_loop(S, it, c, f, chain, lid)
        v = self.eval(e.elt, c, f, chain)
        if len(e.generators) > 1:
            return Val("list", prov=v.prov, roots=it.roots)
        ln = it.len
        src, dist = frozenset(), None
        if isinstance(e.elt, ast.List) and not e.elt.elts:
            return Val("buckets", ln)
        if ("cur", lid) in v.src and v.kind == "one" and v.dist:
            dist = True
            src = v.src - {("cur", lid)}
        elif v.kind == "one" and v.dist is False:
            dist = False
        if isinstance(e, ast.SetComp):
            dist = True
        prov = v.prov
        for t in g.ifs:
            ln2 = self.measure(atom("len"))
            st.facts.append(ln - ln2)
            ln = ln2
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn):
                h = self.eval(t.comparators[0], c, f, chain)
                if h.kind in ("idx", "list") and h.num is None and len(g.ifs) == 1:
                    st.facts.append(ln2 - it.len + h.len)
                    self.exact |= set(ln2.c)
                src = src | {("not", x[1]) for x in h.src if x[0] == "is"} | {("not", h.ident)}
        kind = "pop" if v.kind == "one" and (v.extra or {}).get("ind") else "idx" if dist else "list"
        return Val(kind, ln, dist, src, None, prov, v.pools, it.roots)

    def merged(self, vs):
        vs = [v for v in vs if v.kind != "none"]
        if not vs:
            return Val("list", Lin(), True, prov=True)
        ln, d, src, prov = Lin(), True, None, True
        seen = []
        for v in vs:
            ln = ln + (v.len if v.kind != "one" else Lin(k=1))
            if v.kind != "one" and v.len == Lin():
                continue
            if v.dist is False:
                d = False
            elif v.dist is None and v.kind != "one" and d is not False:
                d = None
            for w in seen:
                if not disjoint(v.src, w.src):
                    d = False if w.ident == v.ident or covers(v.src, w.src) or covers(w.src, v.src) or overlap(v.src, w.src) else None if d is not False else d
            seen.append(v)
            src = v.src if src is None else src & v.src
            prov = False if prov is False or v.prov is False else True if prov and v.prov else None
        kinds = {v.kind for v in vs}
        k = "pop" if "pop" in kinds else "idx" if "idx" in kinds else "list"
        return Val(k, ln, d, src or frozenset(), None, prov, frozenset(), frozenset().union(*[v.roots for v in vs]), space=frozenset().union(*[v.space for v in vs]))

    def part(self, v, st, kind=None, **k):
        """a subset"""
        ln = k.pop("len", None)
        if ln is None:
            ln = atom("len")
            st.facts.append(v.len - ln)
        return Val(kind or v.kind, ln, v.dist, v.src, None, v.prov, v.pools, v.roots, extra=v.extra if v.extra and "front" in v.extra else None, space=v.space).but(**k) if k else Val(kind or v.kind, ln, v.dist, v.src, None, v.prov, v.pools, v.roots, space=v.space)

    def subscript(self, e, st, f, chain):
        b = self.eval(e.value, st, f, chain)
        sl = e.slice
        if isinstance(sl, ast.Tuple) and sl.elts:
            first = sl.elts[0]
            if isinstance(first, ast.Slice) and first.lower is None and first.upper is None:
                return b.but(kind="rows" if b.kind in ("rows", "other") else b.kind)
            if b.kind in ("rows", "other", "mask"):
                i = self.eval(first, st, f, chain) if not isinstance(first, ast.Slice) else None
                return Val("rows", i.len if i is not None and i.kind in ("idx", "list", "mask") else None, roots=b.roots | (i.roots if i is not None else frozenset()))
            sl = first
        if isinstance(sl, ast.Slice):
            return self.sliced(e, b, sl, st, f, chain)
        i = self.eval(sl, st, f, chain)
        if b.kind == "tuple" and b.items and isinstance(i.lit, int) and -len(b.items) <= i.lit < len(b.items):
            return b.items[i.lit]
        if b.kind == "fronts":
            fid = b.ident
            if (b.extra or {}).get("twice"):
                return Val("idx", self.free(), dist=False, roots=b.roots | i.roots, extra={"twice": True})
            if i.lit == -1 or i.num is not None and not i.num.c and i.num.k == -1:
                return Val("idx", self.measure(self.free()), dist=True, src=frozenset([("fr", fid, "last")]), roots=b.roots, space=self.numbering(b))
            if i.extra and "loop" in i.extra:
                return Val("idx", self.measure(self.free()), dist=True, src=frozenset([("cur", i.extra["loop"])]), roots=b.roots | i.roots, space=self.numbering(b))
            return Val("idx", self.measure(self.free()), dist=True, roots=b.roots, space=self.numbering(b))
        self.indexed(e, b, i, st, f)
        if b.kind in ("pop", "idx", "list"):
            ind = b.kind == "pop"
            if i.kind in ("idx", "list") and i.num is None:
                if i.kind == "list" and i.len == Lin() and not i.src:
                    return Val(b.kind, Lin(), True, frozenset(), None, b.prov)
                d = True if b.dist and i.dist else False if i.dist is False or b.dist is False else None
                return Val(b.kind, i.len, d, b.src | (i.src if ind or b.kind in ("idx", "list") else frozenset()), None, b.prov, b.pools | i.pools, b.roots | i.roots, space=b.space)
            if i.kind == "mask":
                ln = None
                if i.ident in self.counts:
                    ln = self.counts[i.ident]
                if i.lit == "fresh":
                    ln = self.measure(self.free()) if ln is None else ln
                    st.facts.append(b.len - ln)
                    self.complement(i, ln, st)
                v = self.part(b, st, len=ln)
                v.src = b.src | {("mask", self.mask_key(sl, i), self.positive(i))}
                v.pools = b.pools | i.pools
                return v
            if i.kind == "one" or i.num is not None:
                v = Val("one", Lin(k=1), True if b.dist and (i.kind == "one") else b.dist if i.kind != "one" else None, b.src | i.src, None, b.prov, b.pools | i.pools, b.roots | i.roots, extra={"ind": True} if ind else i.extra, space=b.space)
                if i.kind != "one" or (b.extra or {}).get("twice"):
                    v.dist = b.dist
                return v
            # unknown index: a subset, an element
            v = Val("other" if not ind else "pop", roots=b.roots | i.roots, pools=b.pools | i.pools, src=b.src, prov=b.prov)
            if i.kind == "rows":
                v.kind = b.kind
            return v
        if b.kind in ("rows", "mask"):
            if i.kind in ("idx", "list", "mask"):
                return Val("rows", i.len if i.kind != "mask" else None, roots=b.roots | i.roots, src=i.src)
            if i.kind == "one" or i.num is not None:
                return Val("other", roots=b.roots | i.roots)
        if b.kind == "other" and i.kind in ("idx", "list") and i.num is None:
            return Val("rows", i.len, roots=b.roots | i.roots)
        return Val(roots=b.roots | i.roots, pools=b.pools | i.pools)

    def counted(self, m):
        """how many a mask selects"""
        k = m.ident
        if k not in self.counts:
            self.counts[k] = self.free("n:sum")
        return self.counts[k]

    def numbering(self, v):
        return frozenset() if v.ident in self.renumbered else (v.extra or {}).get("space", frozenset())

    def measure(self, ln):
        """lengths that belong to something definite: a collection that was given, a front, a part of a split"""
        self.measured |= set(ln.c)
        return ln

    def indexed(self, e, b, i, st, f):
        """what is an index into one collection must not be used for another one"""
        if self.quiet or not i.space or b.kind not in ("pop", "idx", "list", "rows", "mask") or not (i.kind in ("idx", "one") or i.kind == "list") or i.num is not None:
            return
        if not b.len.c or not set(b.len.c) <= self.measured:
            return
        for sp in i.space:
            if sp.c and set(sp.c) <= self.measured and sp != b.len and not (prove(sp - b.len, st.facts, 3) and prove(b.len - sp, st.facts, 3)):
                self.report("wrong-index", f, e, f"{ast.unparse(e)[:60]}: the indices belong to another collection")

    def mask_key(self, sl, i):
        return (i.extra or {}).get("not", i.ident)

    def complement(self, m, ln, st):
        """what a mask selects and what its complement selects is everything together; the same mask selects the same number again"""
        for k, side, other in st.sides:
            if k == self.mask_key(None, m):
                if side == self.positive(m):
                    st.facts += [ln - other, other - ln]
                else:
                    st.facts += [m.len - ln - other, ln + other - m.len]
        st.sides = st.sides + [(self.mask_key(None, m), self.positive(m), ln)]

    def positive(self, i):
        return not (i.extra and "not" in i.extra)

    def sliced(self, e, b, sl, st, f, chain):
        lo = self.eval(sl.lower, st, f, chain) if sl.lower is not None else None
        up = self.eval(sl.upper, st, f, chain) if sl.upper is not None else None
        if sl.step is not None and (lo is None and up is None):
            return b.but(ident=b.ident)
        if b.kind == "fronts":
            if lo is None and up is not None and up.num == Lin(k=-1):
                return Val("fronts", ident=None, extra={"of": b.ident, "which": "rest", "stop": (b.extra or {}).get("stop")}, roots=b.roots)
            if up is None and lo is not None and lo.num == Lin(k=-1):
                return Val("fronts", extra={"of": b.ident, "which": "last"}, roots=b.roots)
            return Val("fronts", roots=b.roots)
        if b.kind not in ("pop", "idx", "list", "rows", "mask"):
            return Val(b.kind if b.kind in ("other",) else "other", roots=b.roots, pools=b.pools)
        ln = atom("len")
        st.facts.append(b.len - ln)
        tag = None
        if lo is None and up is not None and up.num is not None:
            u = up.num
            if isinstance(sl.upper, ast.UnaryOp) and isinstance(sl.upper.op, ast.USub) or not u.c and u.k < 0:
                k = -u
                # [:-k] with k == 0 is empty
                if prove(k - 1, st.facts, 3):
                    d = b.len - k
                    st.facts += [d - ln] if prove(d, st.facts, 3) else []
                    if prove(d, st.facts, 3):
                        st.facts.append(ln - d)
                        self.exact |= set(ln.c)
                elif not self.quiet and (prove(k, st.facts, 3) and not prove(-k, st.facts) or counterexample(Lin(k=1) - k, Lin(), st, self.exact | self.heads)):
                    self.report("negative-slice", f, e, f"{ast.unparse(e)[:60]} is empty instead of complete if {ast.unparse(sl.upper.operand if isinstance(sl.upper, ast.UnaryOp) else sl.upper)[:30]} is zero")
                tag = ("slice", b.ident, "head", str(-k))
            elif prove(u, st.facts, 3):
                self.upto[next(iter(ln.c))] = u
                st.facts.append(u - ln)
                if prove(b.len - u, st.facts, 3):
                    st.facts.append(ln - u)
                else:
                    st.cases.append([[ln - u, b.len - u], [ln - b.len, u - b.len]])
                self.exact |= set(ln.c)
                tag = ("slice", b.ident, "head", str(u))
            elif prove(-u - 1, st.facts):
                pass
            else:
                self.upto[next(iter(ln.c))] = u
        elif up is None and lo is not None and lo.num is not None:
            l = lo.num
            if prove(l, st.facts, 3):
                if prove(b.len - l, st.facts, 3):
                    st.facts += [b.len - l - ln, ln - (b.len - l)]
                    self.exact |= set(ln.c)
                tag = ("slice", b.ident, "tail", str(l))
            elif isinstance(sl.lower, ast.UnaryOp) and prove(-l - 1, st.facts, 3):
                st.facts.append(-l - ln)
        v = self.part(b, st, len=ln)
        if tag is not None:
            v.src = b.src | {tag}
        return v

    # ------------------------------------------------------------- calls
    def call(self, e, st, f, chain):
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        if self.hooks is not None:
            r = self.hooks.call(self, e, nm, st, f, chain)
            if r is not None:
                return r
        # changes of lists
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in st.env:
            a = st.env[fn.value.id]
            if nm == "append" and len(e.args) == 1:
                self.extend(fn.value, a, self.eval(e.args[0], st, f, chain), st, f, e, one=True)
                return Val("none")
            if nm == "extend" and len(e.args) == 1:
                self.extend(fn.value, a, self.eval(e.args[0], st, f, chain), st, f, e)
                return Val("none")
            if nm == "remove" and len(e.args) == 1 and a.kind in ("list", "idx"):
                st.events.append(("removed", fn.value.id, self.eval(e.args[0], st, f, chain)))
                st.env[fn.value.id] = a.but(len=a.len - 1)
                return Val("none")
            if nm == "pop" and a.kind in ("list", "idx"):
                st.events.append(("removed", fn.value.id, None))
                st.env[fn.value.id] = a.but(len=a.len - 1)
                return Val("one", Lin(k=1), a.dist, a.src, None, a.prov, a.pools | {fn.value.id}, a.roots)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Subscript) and isinstance(fn.value.value, ast.Name) and nm == "append" and len(e.args) == 1:
            base = st.env.get(fn.value.value.id)
            if base is not None and base.kind == "buckets":
                x = self.eval(e.args[0], st, f, chain)
                curs = [r for r in x.src if r[0] == "cur"]
                if not curs:
                    st.env[fn.value.value.id] = Val("other")
                elif any(v[0] == "bucketed" and v[1] == fn.value.value.id and v[2] in curs for v in st.events):
                    self.twice.add((base.extra or {}).get("was", base.ident))
                st.events += [("bucketed", fn.value.value.id, r) for r in curs]
                return Val("none")
        args = [self.eval(a, st, f, chain) for a in e.args]
        kw = {k.arg: self.eval(k.value, st, f, chain) for k in e.keywords if k.arg is not None}
        roots = frozenset().union(*[v.roots for v in args + list(kw.values())]) if args or kw else frozenset()
        ext = self.repo.external_name(fn, f) if hasattr(self.repo, "external_name") else None
        recv = None
        if isinstance(fn, ast.Attribute) and not (isinstance(fn.value, ast.Name) and fn.value.id in ("np", "numpy", "math", "copy")):
            recv = self.eval(fn.value, st, f, chain)
        ax = next((k.value for k in e.keywords if k.arg == "axis"), None)
        if nm == "len" and args:
            return Val("num", num=args[0].len if args[0].kind != "one" else atom("len"), roots=roots)
        if nm in ("int", "float", "abs", "round") and args and isinstance(fn, ast.Name):
            return args[0].but(ident=args[0].ident, pools=args[0].pools)
        if nm in ("min", "max", "minimum", "maximum") and len(args) == 2 and all(a.num is not None for a in args) and recv is None:
            x = atom("num" if nm[:3] == "max" or not all(prove(a.num, st.facts) for a in args) else "n:min")
            for a in args:
                st.facts.append(a.num - x if nm[:3] == "min" else x - a.num)
            a, b = args[0].num, args[1].num
            self.exact |= set(x.c)
            st.cases.append([[x - a, b - a], [x - b, a - b]] if nm[:3] == "min" else [[a - x, a - b], [b - x, b - a]])
            return Val("num", num=x, roots=roots)
        if nm in ("min", "max") and isinstance(fn, ast.Name) and len(args) == 2 and sum(a.num is not None for a in args) == 1:
            k = next(k for k in (0, 1) if args[k].num is None)
            if isinstance(e.args[k], ast.Attribute) and args[k].kind == "other":
                x, y, a = atom("num" if nm == "max" else "n:min"), self.free("n:setting"), args[1 - k].num
                st.facts += [a - x, y - x] if nm == "min" else [x - a, x - y]
                self.exact |= set(x.c)
                st.cases.append([[x - a, y - a], [x - y, a - y]] if nm == "min" else [[a - x, a - y], [y - x, y - a]])
                return Val("num", num=x, roots=roots)
        if nm == "range" and isinstance(fn, ast.Name):
            if len(args) == 1 and args[0].num is not None:
                return Val("idx", args[0].num, True, roots=roots, extra={"upto": args[0].num})
            return Val("idx", None, True, roots=roots)
        if nm == "arange":
            if len(args) == 1 and args[0].num is not None:
                return Val("idx", args[0].num, True, roots=roots, extra={"upto": args[0].num})
            return Val("idx", None, True, roots=roots)
        if nm in ("list", "array", "asarray", "tuple", "sorted", "copy", "tolist", "ravel", "flatten", "astype", "reversed", "flip", "view", "asarray_chkfinite", "ascontiguousarray", "squeeze"):
            src = recv if recv is not None and not (nm in ("array", "asarray")) else args[0] if args else None
            if src is None and not args:
                return Val("list", Lin(), True, prov=True)
            if src is not None:
                if src.kind == "list" and src.items and len(src.items) > 0 and all(i.kind in ("idx",) for i in src.items):
                    return Val(roots=src.roots)
                if nm in ("copy",) and src.kind == "one" and (src.extra or {}).get("ind"):
                    return src.but(prov=False)
                k = {"tuple": "list"}.get(src.kind, src.kind)
                return src.but(kind=k, ident=src.ident)
        if nm == "set" and isinstance(fn, ast.Name):
            if not args:
                return Val("list", Lin(), True, prov=True)
            return args[0].but(dist=True, src=args[0].src | {("is", args[0].ident)}, ident=args[0].ident, kind="idx" if args[0].kind in ("idx", "list") else args[0].kind)
        if nm in ("argsort", "lexsort", "randomized_argsort"):
            v = recv if recv is not None and not args else args[0] if args else Val()
            if nm == "lexsort" and v.items:
                v = v.items[0]
            plain = {n.id for x in e.args[:1] + ([fn.value] if recv is not None else []) for n in ast.walk(x) if isinstance(n, ast.Name)}
            stored = {n.value.id for n in f.walk() if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
            whole = frozenset([("perm", next(_n))]) if v.kind == "rows" and not plain & stored and not (isinstance(ax, ast.Constant) and ax.value == 0) else frozenset()
            return Val("idx" if not (isinstance(ax, ast.Constant) and ax.value == 0) else "rows", v.len, True, whole, roots=roots | (recv.roots if recv is not None else frozenset()), space=frozenset([v.len]) if v.kind in ("rows", "mask", "pop", "idx") else frozenset())
        if nm in ("permutation",):
            if args and args[0].num is not None:
                return Val("idx", args[0].num, True, roots=roots, extra={"upto": args[0].num})
            if args:
                return args[0].but()
        if nm in ("where", "nonzero", "flatnonzero") and len(args) <= 1:
            m = args[0] if args else recv
            m = m if m is not None else Val()
            if len(args) == 0 and recv is None:
                return Val()
            v = Val("idx", self.free() if m.kind == "mask" and m.lit == "fresh" else None, True, frozenset([("mask", self.mask_key(None, m), self.positive(m))]), roots=m.roots, pools=m.pools)
            if m.kind in ("mask", "rows"):
                v.space = frozenset([m.len])
                if m.kind == "mask" and m.lit == "fresh":
                    self.measure(v.len)
                st.facts.append(m.len - v.len)
                self.complement(m, v.len, st)
            return v if nm == "flatnonzero" else Val("tuple", items=[v], roots=v.roots)
        if nm in ("full", "zeros", "ones", "empty"):
            lit = args[1] if len(args) > 1 else None
            if nm == "full" and lit is not None and isinstance(lit.lit, bool):
                n = args[0].num if args[0].num is not None else args[0].items[0].num if args[0].items and args[0].items[0].num is not None else None
                return Val("mask", n, roots=frozenset())
            n = args[0].num if args and args[0].num is not None else None
            return Val("rows", n)
        if nm in ("all", "any") and (args and args[0].kind == "mask" and args[0].lit == "fresh" or recv is not None and recv.kind == "mask" and recv.lit == "fresh") and isinstance(ax, ast.Constant):
            m = recv if recv is not None and recv.kind == "mask" else args[0]
            return Val("mask", m.len, lit="fresh", roots=m.roots)
        if nm in ("logical_and", "logical_or", "logical_not", "isin", "in1d"):
            return Val("mask", next((a.len for a in args if a.kind in ("mask", "rows")), None), lit="fresh" if all(a.kind == "mask" and a.lit == "fresh" for a in args) else None, roots=roots, pools=frozenset().union(*[a.pools for a in args]) if args else frozenset(), extra={"not": args[0].ident} if nm == "logical_not" and args else None)
        if nm in ("concatenate", "hstack", "merge", "chain", "append", "union1d", "r_"):
            vs = args
            if len(args) >= 1 and args[0].kind == "fronts":
                fr = args[0]
                ex = fr.extra or {}
                ln = self.measure(self.free())
                if ex.get("which") == "rest" and ex.get("stop") is not None:
                    st.facts.append(ex["stop"] - ln - 1)
                return Val("idx", ln, True, frozenset([("fr", ex["of"], ex["which"])]) if "of" in ex else frozenset([("all", fr.ident)]), roots=roots, space=self.numbering(fr))
            if len(args) >= 1 and args[0].items is not None and nm in ("concatenate", "hstack"):
                vs = args[0].items
            vs = [v for v in vs if v.kind in ("idx", "list", "pop", "one", "other", "rows")]
            if any(v.kind in ("rows",) for v in vs):
                return Val("rows", None, roots=roots)
            m = self.merged(vs) if vs else Val()
            if nm == "union1d":
                m.dist = True
            return m
        if nm in ("unique",):
            v = args[0] if args else Val()
            r = Val("idx" if v.kind in ("idx", "list", "rows", "other") else v.kind, None, True, v.src, None, v.prov, roots=roots, pools=v.pools)
            st.facts.append(v.len - r.len)
            return r if not any(k.arg and k.arg.startswith("return_") for k in e.keywords) else Val("tuple", items=None)
        if nm in ("setdiff1d", "difference"):
            a, b = (args[0], args[1]) if len(args) > 1 else (recv or Val(), args[0] if args else Val())
            r = self.part(a, st)
            r.kind, r.dist = "idx", True if nm == "setdiff1d" or a.dist else None
            r.src = a.src | {("not", b.ident), ("some", r.ident)} | {("not", x[1]) for x in b.src if x[0] == "is"}
            return r
        if nm in ("intersect1d", "intersection"):
            r = self.part(args[0] if nm == "intersect1d" else recv, st)
            r.dist = True
            return r
        if nm == "delete" and len(args) >= 2:
            a, i = args[0], args[1]
            if a.kind in ("idx", "pop", "list", "rows", "mask"):
                one = i.kind == "one" or i.num is not None
                if isinstance(e.args[0], ast.Name):
                    st.events.append(("removed", e.args[0].id, i))
                return self.part(a, st, len=a.len - 1 if one else None)
            return Val(roots=roots)
        if nm == "choice":
            src = args[0] if args else kw.get("a", Val())
            rep = kw.get("replace") or (args[2] if len(args) > 2 else None)
            size = kw.get("size") or (args[1] if len(args) > 1 else None)
            with_rep = not (rep is not None and rep.lit is False)
            if size is None:
                return Val("one", Lin(k=1), src.dist if src.num is None else True, src.src, None, src.prov, src.pools | (frozenset(src.roots) if src.num is None else frozenset()), src.roots, extra=src.extra if src.num is None else {"upto": src.num})
            n = size.num if size.num is not None else None
            r = Val("pop" if src.kind == "pop" else "idx", n, (False if not (n is not None and not n.c and n.k <= 1) else True) if with_rep else src.dist if src.num is None else True, src.src, None, src.prov, src.pools, src.roots | roots, extra={"upto": src.num} if src.num is not None else None)
            if src.num is None:
                r.pools = src.pools | frozenset(x for x in src.roots if isinstance(x, str))
            return r
        if nm in ("integers", "randint"):
            hi = args[1] if len(args) > 1 else args[0] if args else kw.get("high", Val())
            size = kw.get("size") or (args[2] if len(args) > 2 else None)
            end = kw.get("endpoint")
            up = hi.num
            if up is not None and end is not None and end.lit is True:
                up = up + 1
            if size is None:
                return Val("one", Lin(k=1), None, roots=roots, extra={"upto": up})
            return Val("idx", size.num, False, roots=roots, extra={"upto": up})
        if nm in ("argmin", "argmax"):
            v = recv if recv is not None else args[0] if args else Val()
            if ax is not None:
                return Val("rows", v.len if isinstance(ax, ast.Constant) and ax.value == 1 else None, roots=v.roots | roots)
            return Val("one", Lin(k=1), None, v.src, None, None, v.pools, v.roots | roots, space=frozenset([v.len]) if v.kind == "rows" else frozenset())
        if nm in ("argpartition",):
            return Val("idx", args[0].len if args else None, True, roots=roots)
        if nm == "get" and recv is not None and recv.kind in ("pop",):
            if len(e.args) == 1:
                return self.rows(recv)
            return Val("tuple", items=[self.rows(recv) for _ in e.args])
        if nm in ("repeat", "tile"):
            v = args[0] if args else recv
            if v is not None and v.kind in ("idx", "pop", "list"):
                return Val(v.kind, None, False, v.src, None, v.prov, roots=roots)
        if nm == "sum" and (recv is not None and recv.kind == "mask" or args and args[0].kind == "mask"):
            m = recv if recv is not None and recv.kind == "mask" else args[0]
            return Val("num", num=self.counted(m) if m.lit == "fresh" and not (m.extra or {}).get("not") or m.ident in self.counts else atom("n:sum"), roots=roots)
        if nm in ("reshape",):
            v = recv if recv is not None else args[0] if args else Val()
            return v.but(len=None) if v.kind in ("idx",) else Val("rows", None, roots=roots)
        if nm == "zip":
            return Val(roots=roots)
        if recv is None and isinstance(fn, ast.Attribute) and nm in ROWWISE and args:
            vs = [v for a in args for v in (a.items or [a])]
            rs = {v.len for v in vs if v.kind == "rows"}
            if len(rs) == 1:
                return Val("rows", next(iter(rs)), roots=roots)
        # own functions
        ts = self.targets(e, f)
        fs = [t for t in ts if isinstance(t, Func)]
        if len(fs) == 1 and len(ts) == 1 and fs[0] not in chain and len(chain) < MAXDEPTH and self.openable(fs[0], e, f):
            t = fs[0]
            m, star, dstar, extra, xkw = bind_args(e, t)
            after = []
            ids = {id(a): v for a, v in zip(e.args, args)}
            ids.update({id(k.value): kw[k.arg] for k in e.keywords if k.arg is not None})
            env = {}
            for p in t.all_params:
                if p in m:
                    env[p] = ids.get(id(m[p])) or Val()
                elif p in t.defaults:
                    d = t.defaults[p]
                    env[p] = self.eval(d, St(), f, chain) if isinstance(d, ast.Constant) else Val()
                else:
                    env[p] = Val()
            if t.selfname and t.params and t.params[0] == t.selfname:
                env[t.selfname] = Val()
            changed = self.changes(t)
            for p, x in m.items():
                if p in changed and isinstance(x, ast.Name) and x.id in st.env and st.env[x.id].kind in ("list", "idx", "pop", "mask"):
                    after.append((x.id, p))
            for k, v in st.env.items():
                if k.startswith("self."):
                    env[k] = v
            try:
                outs = self.function(t, env, st.facts, chain)
            except TooMany:
                outs = None
            for n, p in after:
                o = st.env[n]
                if outs is not None and len(outs) == 1 and outs[0][0].env.get(p) is not None:
                    s0 = outs[0][0]
                    st.env[n] = s0.env[p]
                    st.facts += [x for x in s0.facts if x not in st.facts]
                    if o.kind == "mask":
                        st.events.append(("removed", n, None))
                    st.events += [(k, n, v) for k, q, v in s0.events if q == p]
                else:
                    st.env[n] = Val("mask" if o.kind == "mask" else "other", roots=frozenset([n]) | o.roots)
                    if o.kind == "mask":
                        st.events.append(("removed", n, None))
            if outs is None:
                return Val(roots=roots)
            r = self.joined(outs, env, st, roots, t)
            if r.kind == "other" and r.num is None and r.items is None and r.lit is None:
                rs = {a.len for a in args + list(kw.values()) if a.kind == "rows"}
                if len(rs) == 1:
                    return Val("rows", next(iter(rs)), roots=r.roots)
            return r
        prov = None
        if self.hooks is not None:
            prov = self.hooks.made(self, e, nm, ts, args, kw, st, f)
        pools = frozenset().union(*[a.pools for a in args if a.kind in ("mask",)]) if args else frozenset()
        if prov is not False and not (isinstance(fn, ast.Attribute) and recv is None):
            rs = {a.len for a in args + list(kw.values()) if a.kind == "rows"}
            if len(rs) == 1 and not any(k.arg == "axis" for k in e.keywords):
                return Val("rows", next(iter(rs)), roots=roots)
        return Val("pop" if prov is False else "other", roots=roots | (recv.roots if recv is not None else frozenset()), prov=prov, pools=frozenset())

    def changes(self, t):
        c = getattr(self, "_changes", None)
        if c is None:
            c = self._changes = {}
        if t.id not in c:
            c[t.id] = self.assigned(t.body)[1] | {n.target.id for n in t.walk() if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        return c[t.id]

    def joined(self, outs, env, st, roots, t):
        vs = [(s, v) for s, v, n in outs]
        if not vs:
            return Val(roots=roots)
        if len(vs) == 1:
            s, v = vs[0]
            st.facts += [x for x in s.facts if x not in st.facts]
            st.cases += [x for x in s.cases if x not in st.cases]
            st.sides = st.sides + s.sides
            st.blind = st.blind or s.blind
            return v
        if all(v.kind == "tuple" and v.items for _, v in vs) and len({len(v.items) for _, v in vs}) == 1:
            n = len(vs[0][1].items)
            return Val("tuple", items=[self.joined([(s, v.items[k], None) for s, v in vs], env, st, roots, t) for k in range(n)], roots=roots)
        vs = [(s, v) for s, v in vs if v.kind != "none"] or vs
        r = self.either([v for _, v in vs], st)
        if r.num is None:
            r.len = atom("len")
            for b in {v.num for v in env.values() if v.num is not None} | {v.len for v in env.values() if v.num is None and v.kind in ("pop", "idx", "list")}:
                if all(prove(b - v.len, s.facts, 3) for s, v in vs):
                    st.facts.append(b - r.len)
            ds = [v.dist for _, v in vs]
            r.dist = True if all(ds) else False if False in ds else None
        return r

    def targets(self, e, f):
        fn = e.func
        if isinstance(fn, ast.Attribute) and self.cls is not None:
            sn = self.repo.self_name(f)
            if isinstance(fn.value, ast.Name) and fn.value.id == sn:
                t = self.cls.lookup(fn.attr)
                if t is not None:
                    return [t]
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                enc = self.repo.enclosing_class(f)
                if enc is not None:
                    t = self.cls.lookup(fn.attr, after=enc)
                    return [t] if t is not None else []
        return self.repo.resolve_call(e, f, fallback=False)

    def openable(self, t, e, f):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in t.walk()):
            return False
        if t.cls is None or t.is_static:
            return True
        fn = e.func
        sn = self.repo.self_name(f)
        return isinstance(fn, ast.Attribute) and (isinstance(fn.value, ast.Name) and fn.value.id == sn or isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super")
