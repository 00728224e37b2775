"""A pointwise interpreter for the question: does a value lie between the bounds of the problem?

Every array is represented by one element at a position; its value is an affine combination of points known to lie within the bounds (xl and xu themselves, the variables of evaluated solutions) with coefficients that are polynomials in
numbers of known range (random numbers in [0, 1], constants, options), or unknown. `lo`/`hi` say that the value is at least xl / at most xu. Masks made by comparing with the bounds remember what holds where they are (not) set."""
import ast
import itertools
from .model import *
from .util import *

INF = float("inf")
MAXDEPTH = 14


class Stop(Exception):
    """the path ends here"""


class N:
    """contents of a cell: form {point or None: poly} or None, the bits, the place where it left the bounds, undetermined?"""
    __slots__ = ("form", "lo", "hi", "off", "und", "ident", "blank", "alt", "via", "rows")

    def __init__(self, form=None, lo=False, hi=False, off=None, und=False, ident=None, blank=False, alt=None, via=None, rows=None):
        self.form, self.lo, self.hi, self.off, self.und, self.ident, self.blank, self.alt = form, lo, hi, off, und, ident, blank, alt
        self.rows = rows            # the number of rows, when it is a number that is known
        self.via = via              # other identities the elements come from, with the bits all further elements have

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return N(**d)

    @property
    def good(self):
        return self.lo and self.hi

    def key(self):
        return (self.lo, self.hi, self.off, self.und, self.blank, self.form is None)

    def __repr__(self):
        return f"<{'lo' if self.lo else ''}{'hi' if self.hi else ''}{' off' if self.off else ''}{' und' if self.und else ''} {self.form if self.form is not None else ''}>"


class V:
    __slots__ = ("k", "a", "b", "c")

    def __init__(self, k, a=None, b=None, c=None):
        self.k, self.a, self.b, self.c = k, a, b, c

    def __repr__(self):
        return f"V({self.k},{self.a},{self.b})"


UND = V("und")
USER = V("user")
OPT = V("opt")             # an option the user may have given or not
NONE = V("const", None)
TRUE, FALSE = V("const", True), V("const", False)


# polynomials: {tuple of variables: coefficient}
def padd(a, b, s=1.0):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.0) + s * v
        if abs(r[k]) < 1e-12:
            del r[k]
    return r


def pmul(a, b):
    r = {}
    for (k, v), (l, w) in itertools.product(a.items(), b.items()):
        m = tuple(sorted(k + l, key=repr))
        r[m] = r.get(m, 0.0) + v * w
    return {k: v for k, v in r.items() if abs(v) > 1e-12}


def pconst(a):
    if not a:
        return 0.0
    return a.get((), 0.0) if set(a) == {()} else None


def imul(a, b):
    vs = [0.0 if x == 0 or y == 0 else x * y for x in a for y in b]
    return min(vs), max(vs)


class Frame:
    def __init__(self, func, cls=None, gen=False):
        self.func, self.cls, self.gen = func, cls, gen
        self.returns, self.loopvars = [], set()
        self.breaks, self.conts, self.yields = [], [], []
        self.closure = None


class State:
    def __init__(self):
        self.env, self.heap, self.ineqs = {}, {}, {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.heap.items()}
        s.ineqs = dict(self.ineqs)
        return s


class Boxes:
    def __init__(self, repo):
        self.slopes = set()
        self.recip = {}             # the reciprocals of numbers
        self.repo = repo
        self.st = State()
        self.frames = []
        self.counter = itertools.count(1)
        self.rng = {}
        self.pts = {"BL": (True, True), "BU": (True, True)}
        self.memo = {}
        self.sinks = []
        self.unknown = {}
        self.depth = 0
        self.problem = V("problem")
        self.steps = 0
        self.fams = {}
        self.enclosing = None

    def isa(self, cls, name):
        if not isinstance(cls, Class):
            return False
        if name not in self.fams:
            try:
                self.fams[name] = self.repo.cls(name)
            except AnchorMissing:
                self.fams[name] = None
        b = self.fams[name]
        return b is not None and (cls is b or cls.is_subclass(b))

    # ------------------------------------------------------------------ numbers
    def id(self):
        return next(self.counter)

    def var(self, lo=-INF, hi=INF):
        v = f"v{self.id()}"
        self.rng[v] = (lo, hi)
        return {(v,): 1.0}

    def interval(self, p):
        c = pconst(p)
        if c is not None:
            return c, c
        vs = sorted({x for k in p for x in k}, key=repr)
        if len(vs) <= 8 and all(len(set(k)) == len(k) for k in p) and all(abs(e) < INF for x in vs for e in self.rng[x]):
            vals = []
            for corner in itertools.product(*[self.rng[x] for x in vs]):
                d = dict(zip(vs, corner))
                t = 0.0
                for k, v in p.items():
                    for x in k:
                        v *= d[x]
                    t += v
                vals.append(t)
            return min(vals), max(vals)
        lo = hi = 0.0
        for k, v in p.items():
            i = (v, v)
            for x, g in itertools.groupby(sorted(k, key=repr)):
                n = len(list(g))
                a, b = self.rng[x]
                if n % 2 == 0:
                    m = max(abs(a), abs(b)) ** n if max(abs(a), abs(b)) < INF else INF
                    i = imul(i, (0.0 if a <= 0 <= b else min(abs(a), abs(b)) ** n, m))
                else:
                    for _ in range(n):
                        i = imul(i, (a, b))
            lo, hi = lo + i[0], hi + i[1]
        if lo != lo or hi != hi:
            return -INF, INF
        return lo, hi

    def bits(self, form):
        """(lo, hi) of an affine combination"""
        tot, const = {}, form.get(None, {})
        for k, p in form.items():
            if k is not None:
                tot = padd(tot, p)
        if pconst(tot) is None or abs(pconst(tot) - 1) > 1e-9:
            return False, False
        clo, chi = self.interval(const)
        lo = clo >= -1e-12 and all(k is None or k == "BL" or (self.pts[k][0] and self.interval(p)[0] >= -1e-12) for k, p in form.items())
        hi = chi <= 1e-12 and all(k is None or k == "BU" or (self.pts[k][1] and self.interval(p)[0] >= -1e-12) for k, p in form.items())
        return lo, hi

    def const(self, c):
        return N(form={None: {(): float(c)}} if c else {}, ident=self.id())

    def number(self, lo=-INF, hi=INF):
        return N(form={None: self.var(lo, hi)}, ident=self.id())

    def point(self, lo=True, hi=True):
        s = ("p", self.id())
        self.pts[s] = (lo, hi)
        return N(form={s: {(): 1.0}}, lo=lo, hi=hi, ident=self.id())

    def bound(self, s):
        return N(form={s: {(): 1.0}}, lo=True, hi=True, ident=self.id())

    def und(self):
        return N(und=True, ident=self.id())

    def asform(self, n):
        if n.form is not None:
            return n.form
        if n.und:
            return None
        s = ("c", n.ident, n.lo, n.hi)
        self.pts[s] = (n.lo, n.hi)
        return {s: {(): 1.0}}

    def where(self, node):
        fr = next((f for f in reversed(self.frames) if f.func is not None), None)
        if fr is None:
            return ("?", "?")
        return (fr.func.module.name + ":" + fr.func.qual, f"{fr.func.module.rel}:{getattr(node, 'lineno', 0)}")

    def cancel(self, p):
        """a number times its reciprocal is one"""
        if not self.recip or not any(v in self.recip for m in p for v in m):
            return p
        r = {}
        for m, c in p.items():
            m = list(m)
            for v in [v for v in m if v in self.recip]:
                if v in m and self.recip[v] in m:
                    m.remove(v)
                    m.remove(self.recip[v])
            r = padd(r, {tuple(m): c})
        return r

    def make(self, form, node, olds):
        """the result of arithmetic"""
        form = {k: self.cancel(p) for k, p in form.items() if p}
        form = {k: p for k, p in form.items() if p}
        if sum(len(p) for p in form.values()) > 60:
            form = None
        if form is None:
            return N(off=self.where(node), ident=self.id())
        lo, hi = self.bits(form)
        if not (lo and hi) and self.st.ineqs:
            l2, h2 = self.implied(form)
            lo, hi = lo or l2, hi or h2
        off = None
        if not (lo and hi) and any(v in self.slopes for p in form.values() for m in p for v in m):
            if any(k is not None for k in form):
                return N(und=True, ident=self.id())
            form = dict(form)
        if not (lo and hi):
            off = next((o.off for o in olds if o.off), None)
            if any(k is not None for k in form):
                off = self.where(node)
        return N(form=form, lo=lo, hi=hi, off=off, ident=self.id())

    def ranged(self, n):
        return n.form is not None and not n.und and all(k is None for k in n.form)

    def poly(self, n):
        return n.form.get(None, {})

    def arith(self, op, a, b, node):
        r = self.arith0(op, a, b, node)
        if not r.good and (a.alt is not None or b.alt is not None) and not r.und:
            # a value that was brought back inside: also with the value it had before
            a2 = N(form=a.alt, ident=a.ident) if a.alt is not None else a
            b2 = N(form=b.alt, ident=b.ident) if b.alt is not None else b
            q = self.arith0(op, a2, b2, node)
            if q.good:
                return q
            return r.but(alt=q.form)
        return r

    def arith0(self, op, a, b, node):
        if a.und or b.und:
            return N(und=True, ident=self.id())
        fa, fb = self.asform(a), self.asform(b)
        if isinstance(op, (ast.Add, ast.Sub)):
            s = 1.0 if isinstance(op, ast.Add) else -1.0
            return self.make({k: padd(fa.get(k, {}), fb.get(k, {}), s) for k in {*fa, *fb}}, node, (a, b))
        if isinstance(op, ast.Mult):
            if self.ranged(a):
                return self.make({k: pmul(self.poly(a), p) for k, p in fb.items()}, node, (a, b))
            if self.ranged(b):
                return self.make({k: pmul(self.poly(b), p) for k, p in fa.items()}, node, (a, b))
            return N(off=self.where(node), ident=self.id())
        if isinstance(op, ast.Div):
            if self.ranged(b):
                c = pconst(self.poly(b))
                if c:
                    return self.make({k: pmul({(): 1.0 / c}, p) for k, p in fa.items()}, node, (a, b))
                lo, hi = self.interval(self.poly(b))
                one = next(iter(self.poly(b).items())) if len(self.poly(b)) == 1 else None
                if one is not None and len(one[0]) == 1 and lo > 0:
                    v = one[0][0]
                    if v not in self.recip:
                        g = self.rng[v]
                        self.recip[v] = next(iter(self.var(1 / g[1] if g[1] < INF else 0.0, 1 / g[0])))[0]
                    return self.make({k: pmul({(self.recip[v],): 1.0 / one[1]}, p) for k, p in fa.items()}, node, (a, b))
                inv = self.var(*(sorted((1 / x if x else INF) for x in (lo, hi)) if lo > 0 or hi < 0 else ((0, INF) if lo >= 0 else (-INF, INF))))
                if lo > 0 and hi == INF:
                    inv = self.var(0.0, 1 / lo)
                return self.make({k: pmul(inv, p) for k, p in fa.items()}, node, (a, b))
            if self.isrange(fb):
                lo, hi = self.bits({k: padd(fa.get(k, {}), {(): 1.0} if k == "BL" else {}) for k in {*fa, "BL"}})
                return self.number(0.0 if lo else -INF, 1.0 if hi and lo else INF)
            if not set(fb) <= {None, "BL", "BU"}:
                q = self.number()           # a slope between points: what it leads to depends on the values
                self.slopes |= {v for m in self.poly(q) for v in m}
                return q
            return self.number()
        if isinstance(op, ast.Mod):
            if self.isrange(fb) or (self.ranged(b) and self.interval(self.poly(b))[0] >= 0):
                u = self.var(0.0, 1.0)
                return self.make({k: pmul(u, p) for k, p in fb.items()}, node, (a, b))
            return self.number() if self.ranged(a) else N(off=self.where(node), ident=self.id())
        if isinstance(op, ast.Pow):
            ca, cb = (pconst(self.poly(x)) if self.ranged(x) else None for x in (a, b))
            if ca is not None and cb is not None:
                try:
                    return self.const(ca ** cb)
                except Exception:
                    return self.number()
            if self.ranged(a) and cb is not None and cb == int(cb) and 0 < cb < 4:
                p = self.poly(a)
                for _ in range(int(cb) - 1):
                    p = pmul(p, self.poly(a))
                return N(form={None: p}, ident=self.id())
            if self.ranged(a):
                lo, hi = self.interval(self.poly(a))
                l2 = self.interval(self.poly(b))[0] if self.ranged(b) else -INF
                if 0 <= lo and hi <= 1 and l2 >= 0:
                    return self.number(0.0, 1.0)
                return self.number(0.0 if lo >= 0 else -INF)
            return N(off=self.where(node), ident=self.id())
        if isinstance(op, ast.FloorDiv):
            return self.number()
        return N(und=True, ident=self.id())

    def isrange(self, f):
        return set(f) == {"BL", "BU"} and pconst(f["BU"]) == 1.0 and pconst(f["BL"]) == -1.0

    def isbound(self, n, s):
        return n.form is not None and set(n.form) == {s} and pconst(n.form[s]) == 1.0

    def joinN(self, a, b):
        if a is b:
            return a
        if a.blank and not b.blank:
            return b
        if b.blank and not a.blank:
            return a
        same = a.form is not None and a.form == b.form
        lo, hi = a.lo and b.lo, a.hi and b.hi
        off = None if lo and hi else next((x.off for x in (a, b) if x.off and not x.good), None)
        form = a.form if same else None
        if form is None and not (lo and hi) and off is None and self.ranged(a) and self.ranged(b):
            i, j = self.interval(self.poly(a)), self.interval(self.poly(b))
            if {v for m in self.poly(a) for v in m if max(map(abs, self.rng[v])) == INF} & {v for m in self.poly(b) for v in m}:
                t = self.var(0.0, 1.0)      # one or the other
                form = {None: padd(pmul(t, self.poly(a)), padd(self.poly(b), pmul(t, self.poly(b)), -1.0))}
                if len(form[None]) > 24:
                    form = None
            if form is None:
                form = {None: self.var(min(i[0], j[0]), max(i[1], j[1]))}
        return N(form=form, lo=lo, hi=hi, off=off, und=(a.und or b.und) and not off or (form is None and off is None and not (lo and hi)),
                 ident=a.ident if a.ident == b.ident else self.id(), blank=a.blank and b.blank, alt=self.joinalt(a, b))

    def joinalt(self, a, b):
        if a.alt == b.alt and a.alt is not None:
            return a.alt
        for x, y in ((a, b), (b, a)):
            if y.alt is None and x.alt is not None and (y.good or y.form == x.alt):
                return x.alt
            if y.alt is None and x.alt is None and x.form is not None and (self.isbound(y, "BL") or self.isbound(y, "BU")) and not x.und and any(k not in (None, "BL", "BU") for k in x.form):
                return x.form           # either the value or the bound: it was brought back
        return None

    # ------------------------------------------------------------------ values
    def new(self, n):
        c = ("n", self.id())
        self.st.heap[c] = n
        return V("num", c)

    def num(self, v):
        """the content of a value"""
        if v.k == "num":
            return self.st.heap.get(v.a) or self.und()
        if v.k == "const":
            if isinstance(v.a, bool) or not isinstance(v.a, (int, float)):
                return self.und() if v.a is None or isinstance(v.a, str) else self.const(int(v.a))
            return self.const(v.a)
        if v.k == "seq":
            vs = list(v.a) if v.a is not None else [v.b] if v.b is not None else []
            if not vs:
                return self.const(0).but(blank=True)
            r = self.num(vs[0])
            for w in vs[1:]:
                r = self.joinN(r, self.num(w))
            return r
        if v.k == "pop":
            return self.und()
        return self.und()

    def fresh(self, lo=-INF, hi=INF):
        return self.new(self.number(lo, hi))

    def newpop(self, X=None):
        o = ("o", self.id())
        self.st.heap[o] = {}
        if X is not None:
            self.st.heap[o]["X"] = X
        return V("pop", o)

    def newobj(self, cls, attrs=None):
        o = ("o", self.id())
        self.st.heap[o] = dict(attrs or {})
        return V("obj", o, cls)

    def popX(self, p):
        x = self.st.heap.get(p.a, {}).get("X")
        return x

    def join(self, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        for x, y in ((a, b), (b, a)):
            if x.k in ("opt",) or (x.k == "user" and y.k in ("obj", "func")) or x is NONE or (x.k == "const" and x.a is None):
                return y
        if a.k == b.k == "const" and a.a == b.a:
            return a
        if a.k == "num" or b.k == "num" or (a.k == b.k == "const"):
            if all(x.k in ("num", "seq") or x.k == "const" and isinstance(x.a, (int, float)) and not isinstance(x.a, bool) for x in (a, b)):
                if a.k == "num" and b.k == "num" and a.a == b.a:
                    return a
                return self.new(self.joinN(self.num(a), self.num(b)))
            return UND
        if a.k == b.k == "pop":
            if a.a == b.a:
                return V("pop", a.a, a.b or b.b)
            return self.merge([a, b])
        if {a.k, b.k} == {"pop", "user"}:
            p = a if a.k == "pop" else b
            return self.merge([p, self.newpop(self.new(self.point()))])
        if a.k == b.k == "seq":
            if a.a is not None and b.a is not None and len(a.a) == len(b.a):
                return V("seq", tuple(self.join(x, y) for x, y in zip(a.a, b.a)))
            vs = [x for v in (a, b) for x in (v.a if v.a is not None else [v.b]) if x is not None]
            return V("seq", None, self.joinall(vs))
        if a.k == b.k == "mask":
            if a.c == b.c:
                return V("mask", a.a & b.a, a.b & b.b, a.c)
            return UND
        if a.k == b.k and a.k in ("func", "cls", "bound", "ext", "problem", "mod", "user", "lambda"):
            if a.k == "user":
                return USER
            if a.k in ("func",) and a.a is not b.a:
                return V("any", (a, b))
            return a if a.a == b.a else UND
        if {a.k, b.k} <= {"any", "func", "bound", "lambda"}:
            xs = [y for x in (a, b) for y in (x.a if x.k == "any" else [x])]
            return V("any", tuple(xs))
        if a.k == b.k == "obj":
            return a if a.a == b.a else V("obj2", (a, b)) if a.b is not b.b else a
        return UND

    def joinall(self, vs):
        r = None
        for v in vs:
            r = self.join(r, v)
        return r

    def merge(self, ps):
        ps = [p for p in ps if p.k == "pop"]
        xs = [self.popX(p) for p in ps]
        xs = [x for x in xs if x is not None]
        o = self.newpop()
        if xs:
            n = self.num(xs[0])
            for x in xs[1:]:
                n = self.joinN(n, self.num(x))
            self.st.heap[o.a]["X"] = self.new(n)
        return o

    def joinst(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        saved = self.st
        for k in {*a.heap, *b.heap}:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                s.heap[k] = x if y is None else y
        self.st = s
        for k in [k for k in a.heap if k in b.heap]:
            x, y = a.heap[k], b.heap[k]
            if isinstance(x, N):
                s.heap[k] = x if x is y else self.joinN(x, y)
            else:
                s.heap[k] = {}
        for k in [k for k in a.heap if k in b.heap]:
            x, y = a.heap[k], b.heap[k]
            if isinstance(x, dict):
                s.heap[k].update({n: self.join2(x.get(n), y.get(n), a, b, s) for n in {*x, *y}})
        flags = []
        for n in {*a.env, *b.env}:
            x, y = a.env.get(n), b.env.get(n)
            if x is not None and y is not None and x.k == y.k == "const" and isinstance(x.a, bool) and isinstance(y.a, bool) and x.a != y.a:
                flags.append((n, x.a))
                continue
            s.env[n] = self.join2(x, y, a, b, s)
        for n, first in flags:
            # what holds on either side is remembered with the flag
            facts = {True: set(), False: set()}
            for c, z in s.heap.items():
                if isinstance(z, N):
                    for st, val in ((a, first), (b, not first)):
                        w = st.heap.get(c)
                        if isinstance(w, N):
                            facts[val] |= {(z.ident, bit) for bit in ("lo", "hi") if getattr(w, bit) and not getattr(z, bit)}
            s.env[n] = V("mask", frozenset(facts[False]), frozenset(facts[True]), "flag")
        s.ineqs = {k: v for k, v in a.ineqs.items() if k in b.ineqs}
        self.st = saved
        return s

    def learn(self, na, nb):
        """na <= nb"""
        fa, fb = self.asform(na), self.asform(nb)
        if fa is None or fb is None:
            return
        f = {k: padd(fb.get(k, {}), fa.get(k, {}), -1.0) for k in {*fa, *fb}}
        f = {k: p for k, p in f.items() if p}
        if any(k is not None for k in f) and len(self.st.ineqs) < 12:
            self.st.ineqs[frozenset((k, frozenset(p.items())) for k, p in f.items())] = f

    def implied(self, form):
        """bits of a form that follow from comparisons made on the way"""
        lo = hi = False
        for e in self.st.ineqs.values():
            d = {k: padd(form.get(k, {}), e.get(k, {}), -1.0) for k in {*form, *e}}
            lo = lo or self.bits(d)[0]
            d = {k: padd(form.get(k, {}), e.get(k, {}), 1.0) for k in {*form, *e}}
            hi = hi or self.bits(d)[1]
        return lo, hi

    def join2(self, x, y, a, b, s):
        if x is None or y is None:
            return x or y
        if x.k == y.k and x.a == y.a and x.k not in ("seq", "mask"):
            return x if not (x.k == "pop" and y.b and not x.b) else y
        # contents are looked up in the state they belong to
        def imp(v, st):
            if v.k == "num" and v.a not in s.heap:
                s.heap[v.a] = st.heap.get(v.a)
            return v
        if x.k == "num" and y.k == "num":
            return self.new(self.joinN(a.heap.get(x.a) or self.und(), b.heap.get(y.a) or self.und()))
        return self.join(imp(x, a), imp(y, b))

    # ------------------------------------------------------------------ facts from masks
    def limited(self, n, fact):
        """a number within the range it was compared with"""
        if not self.ranged(n) or n.off:
            return n
        lo, hi = self.interval(self.poly(n))
        if fact[0] == "ge" and fact[1] > lo:
            lo = fact[1]
        elif fact[0] == "le" and fact[1] < hi:
            hi = fact[1]
        else:
            return n
        return n if lo > hi else n.but(form={None: self.var(lo, hi)})

    def assume(self, facts):
        for ident, bit in facts:
            for c, n in list(self.st.heap.items()):
                if isinstance(n, N) and n.ident == ident:
                    if isinstance(bit, tuple):
                        self.st.heap[c] = self.limited(n, bit)
                        continue
                    n = n.but(**{bit: True})
                    if n.good:
                        n = n.but(off=None, und=False, alt=n.form if n.alt is None and not self.bits(n.form or {})[0] else n.alt)
                        if n.form is not None and self.bits(n.form) != (True, True):
                            n = n.but(form=None)
                    self.st.heap[c] = n

    def refined(self, n, facts):
        via = n.via or {}
        for ident, bit in facts:
            if ident == n.ident and isinstance(bit, tuple):
                n = self.limited(n, bit)
        kw = {bit: True for ident, bit in facts if isinstance(bit, str) and (ident == n.ident or bit in via.get(ident, ()))}
        if not kw:
            return n
        n = n.but(**kw)
        if n.good:
            n = n.but(off=None, und=False, form=n.form if n.form is not None and self.bits(n.form) == (True, True) else None)
        return n

    def compare(self, op, a, b):
        """mask of a op b"""
        na, nb = self.num(a), self.num(b)
        comp, hold = set(), set()
        if isinstance(op, (ast.Gt, ast.GtE)):
            na, nb, op = nb, na, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
        if isinstance(op, (ast.Lt, ast.LtE)):
            # na < nb: where it does not hold, na >= nb
            if nb.lo and (self.isbound(nb, "BL") or nb.lo):
                comp.add((na.ident, "lo"))
            if na.hi:
                comp.add((nb.ident, "hi"))
            if nb.hi:
                hold.add((na.ident, "hi"))
            if na.lo:
                hold.add((nb.ident, "lo"))
            for x, y, h, c in ((na, nb, "ge", "le"), (nb, na, "le", "ge")):
                if self.ranged(x):
                    l, u = self.interval(self.poly(x))
                    # na <= nb holds: nb >= lower(na), na <= upper(nb); it does not hold: nb <= upper(na), na >= lower(nb)
                    hold.add((y.ident, (h, l if h == "ge" else u)))
                    comp.add((y.ident, (c, u if c == "le" else l)))
        return V("mask", frozenset(comp), frozenset(hold), "elem")

    def tomask(self, v):
        return v if v.k == "mask" else V("mask", frozenset(), frozenset(), "elem")

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            r = self.stmt(s)
            if r is not None:
                return r
        return None

    def stmt(self, s):
        self.steps += 1
        if self.steps > 400000:
            raise RecursionError("too many steps")
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s)
        elif isinstance(s, ast.AugAssign):
            self.augment(s)
        elif isinstance(s, ast.Return):
            fr = self.frames[-1]
            v = self.ev(s.value) if s.value is not None else NONE
            fr.returns.append((self.st, v))
            return "stop"
        elif isinstance(s, ast.Raise):
            return "stop"
        elif isinstance(s, ast.If):
            return self.branch(s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            return self.forloop(s.target, s.iter, s.body, s.orelse)
        elif isinstance(s, ast.While):
            return self.whileloop(s)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, UND, s)
            return self.block(s.body)
        elif isinstance(s, ast.Try):
            before = self.st.copy()
            r = self.block(s.body)
            if r is None and s.orelse:
                r = self.block(s.orelse)
            outs = [self.st] if r is None else []
            for h in s.handlers:
                self.st = before.copy()
                if h.name:
                    self.st.env[h.name] = UND
                if self.block(h.body) is None:
                    outs.append(self.st)
            if not outs:
                self.block(s.finalbody)
                return "stop"
            st = outs[0]
            for o in outs[1:]:
                st = self.joinst(st, o)
            self.st = st
            return self.block(s.finalbody)
        elif isinstance(s, ast.Break):
            self.frames[-1].breaks.append(self.st)
            return "stop"
        elif isinstance(s, ast.Continue):
            self.frames[-1].conts.append(self.st)
            return "stop"
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = getattr(s, "_func", None)
            self.st.env[s.name] = V("func", f, dict(self.st.env)) if f is not None else UND
        elif isinstance(s, ast.Assert):
            self.ev(s.test)             # an assertion does not bring anything inside: it stops the run
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.st.env.pop(t.id, None)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            before, outs = self.st, [self.st.copy()]
            for c in s.cases:
                self.st = before.copy()
                if self.block(c.body) is None:
                    outs.append(self.st)
            st = outs[0]
            for o in outs[1:]:
                st = self.joinst(st, o)
            self.st = st
        return None

    def branch(self, s):
        before = self.st
        outs = []
        for pol, body in ((True, s.body), (False, s.orelse)):
            self.st = before.copy()
            if not self.truth(s.test, pol):
                continue
            if self.block(body) is None:
                outs.append(self.st)
        if not outs:
            self.st = before
            return "stop"
        st = outs[0]
        for o in outs[1:]:
            st = self.joinst(st, o)
        self.st = st
        return None

    def truth(self, t, pol):
        """can the test have this outcome? what it implies is noted in the state"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.truth(t.operand, not pol)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == pol
            if conj:
                return all([self.truth(v, pol) for v in t.values])
            # one of them has the outcome
            before, outs = self.st, []
            for v in t.values:
                self.st = before.copy()
                if self.truth(v, pol):
                    outs.append(self.st)
            if not outs:
                self.st = before
                return False
            st = outs[0]
            for o in outs[1:]:
                st = self.joinst(st, o)
            self.st = st
            return True
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.ev(t.left), self.ev(t.comparators[0])
            op = t.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)):
                isnone = next((x for x in (a, b) if x.k == "const" and x.a is None), None)
                other = b if isnone is a else a
                if isnone is not None:
                    if other.k in ("opt", "und", "user"):
                        return True
                    is_ = other.k == "const" and other.a is None
                    return is_ == (isinstance(op, ast.Is) == pol)
                return True
            if a.k == b.k == "const" and isinstance(op, (ast.Eq, ast.NotEq)):
                return (a.a == b.a) == (isinstance(op, ast.Eq) == pol)
            # the number of elements of a mask
            for x, y, o in ((a, b, op), (b, a, op)):
                if x.k == "count" and y.k in ("const", "num"):
                    c = pconst(self.poly(self.num(y))) if self.ranged(self.num(y)) else None
                    flip = x is b
                    o = type(o)
                    if flip:
                        o = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}.get(o, o)
                    empty = None
                    if c == 0:
                        empty = {ast.Gt: not pol, ast.Eq: pol, ast.NotEq: not pol, ast.LtE: pol}.get(o)
                    elif c == 1:
                        empty = {ast.GtE: not pol, ast.Lt: pol}.get(o)
                    if empty:
                        self.assume(x.a)
                    return True
            if all(x.k in ("num", "const") for x in (a, b)) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                m = self.compare(op, a, b)
                na, nb = self.num(a), self.num(b)
                self.assume(m.b if pol else m.a)
                up = isinstance(op, (ast.Lt, ast.LtE)) == pol
                self.learn(na, nb) if up else self.learn(nb, na)
                if self.ranged(na) and self.ranged(nb):
                    (al, ah), (bl, bh) = self.interval(self.poly(na)), self.interval(self.poly(nb))
                    if isinstance(op, (ast.Gt, ast.GtE)):
                        (al, ah), (bl, bh) = (bl, bh), (al, ah)
                    if pol and al > bh or not pol and ah < bl:
                        return False
            return True
        v = self.ev(t)
        if v.k == "const":
            return bool(v.a) == pol
        if v.k == "count" and not pol:
            self.assume(v.a)
        if v.k == "mask":
            self.assume(v.b if pol else v.a)
        if v.k in ("obj", "pop", "func", "problem", "cls"):
            return v.k == "pop" or pol
        return True

    def loopbody(self, body, setup):
        """the body until nothing changes; returns the state after the loop or None"""
        fr = self.frames[-1]
        sb, sc = fr.breaks, fr.conts
        exits = []
        try:
            for turn in range(4):
                fr.breaks, fr.conts = [], []
                head = self.st.copy()
                setup()
                r = self.block(body)
                outs = ([self.st] if r is None else []) + fr.conts
                exits = fr.breaks
                if not outs:
                    return None, exits
                st = outs[0]
                for o in outs[1:]:
                    st = self.joinst(st, o)
                end = st
                if turn == 3:
                    return end, exits
                new = self.joinst(head, end) if turn else end
                self.st = new
                if turn and self.samestate(head, new):
                    return end, exits
        finally:
            fr.breaks, fr.conts = sb, sc
        return self.st, exits

    def samestate(self, a, b):
        for n in {*a.env, *b.env}:
            x, y = a.env.get(n), b.env.get(n)
            if x is None or y is None or x.k != y.k:
                return False
            if x.k == "num" and (a.heap.get(x.a) is None or b.heap.get(y.a) is None or a.heap[x.a].key() != b.heap[y.a].key()):
                return False
        return True

    def forloop(self, target, it, body, orelse=()):
        v = self.ev(it)
        names = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        fr = self.frames[-1]
        el = self.elements(v)
        if el is not None and 0 < len(el) <= 8 and v.k == "seq":
            exits = []
            for x in el:
                sb, sc = fr.breaks, fr.conts
                fr.breaks, fr.conts = [], []
                self.assign(target, x, target)
                r = self.block(body)
                outs = ([self.st] if r is None else []) + fr.conts
                exits += fr.breaks
                fr.breaks, fr.conts = sb, sc
                if not outs:
                    self.st = None
                    break
                st = outs[0]
                for o in outs[1:]:
                    st = self.joinst(st, o)
                self.st = st
            return self.after([self.st] + exits, orelse)
        new = names - fr.loopvars if v.k in ("range", "enum", "zip") else set()     # runs over every position
        fr.loopvars |= new
        zero = self.st.copy()
        try:
            end, exits = self.loopbody(body, lambda: self.assign(target, self.item(v, "loop"), target))
        finally:
            fr.loopvars -= new
        if end is None and not exits:
            end = zero
        return self.after([end] + exits, orelse)

    def after(self, sts, orelse):
        sts = [s for s in sts if s is not None]
        if not sts:
            return "stop"
        st = sts[0]
        for o in sts[1:]:
            st = self.joinst(st, o)
        self.st = st
        return self.block(orelse)

    def whileloop(self, s):
        if isinstance(s.test, ast.Constant) and s.test.value:
            end, exits = self.loopbody(s.body, lambda: None)
            return self.after(exits or [end], ())
        zero = self.st.copy()
        zero_ok = self.truth(s.test, False)
        zero = self.st if zero_ok else None
        self.st = self.st.copy()
        self.truth(s.test, True)
        end, exits = self.loopbody(s.body, lambda: self.truth(s.test, True))
        if end is not None:
            self.st = end
            self.truth(s.test, False)
            end = self.st
        return self.after([end, zero] + exits, s.orelse)

    def elements(self, v):
        if v.k == "seq" and v.a is not None:
            return list(v.a)
        if v.k == "mask" and v.c == "idx":
            return None
        return None

    def item(self, v, how):
        """an element of a collection"""
        if v.k == "seq":
            return self.joinall(v.a) if v.a else (v.b or UND) if v.a is None else UND
        if v.k == "num":
            return v                    # an element (or a row) of an array: pointwise the same, and a view of it
        if v.k == "pop":
            return V("pop", v.a, True)
        if v.k == "range":
            return self.fresh(0.0)
        if v.k == "enum":
            return V("seq", (self.fresh(0.0), self.item(v.a, how)))
        if v.k == "zip":
            return V("seq", tuple(self.item(x, how) for x in v.a))
        if v.k == "user":
            return V("user", self.id())
        return UND

    # ------------------------------------------------------------------ assignments
    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            el = self.elements(v)
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            if el is not None and star is None and len(el) == len(t.elts):
                for x, y in zip(t.elts, el):
                    self.assign(x, y, node)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, V("seq", None, self.item(v, "unpack")), node)
                    else:
                        w = v if v.k == "mask" else self.item(v, "unpack")
                        if v.k == "pop" and self.popX(v) is not None:
                            w = self.newpop(self.new(self.part(self.num(self.popX(v)))))
                        if w.k == "num" and v.k == "num":
                            w = self.new(self.part(self.num(v)))
                        self.assign(x, w, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.setattr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            idx = self.ev_index(t.slice)
            self.store(b, idx, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def setattr(self, b, name, v):
        if b.k == "obj":
            self.st.heap.setdefault(b.a, {})[name] = v
        elif b.k == "pop" and name in ("X", "x"):
            old = self.popX(b)
            n = self.num(v)
            if b.b and old is not None and not self.inloop(b):
                n = self.joinN(self.num(old), n)
                v = self.new(n)
            self.st.heap[b.a]["X"] = v if v.k == "num" else self.new(n)

    def inloop(self, b):
        return bool(self.frames and self.frames[-1].loopvars)

    def ev_index(self, s):
        if isinstance(s, ast.Tuple):
            return V("idx", tuple(self.ev_index(x) for x in s.elts))
        if isinstance(s, ast.Slice):
            full = s.lower is None and s.upper is None
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    self.ev(x)
            back = isinstance(s.step, ast.UnaryOp) and isinstance(s.step.op, ast.USub)
            return V("slice", full, "back" if back else None)
        v = self.ev(s)
        if isinstance(s, ast.Name) and s.id in self.frames[-1].loopvars:
            return V("loopvar", v)
        return v

    def flatidx(self, idx):
        return list(idx.a) if idx.k == "idx" else [idx]

    def covers(self, idx):
        """does the index address every element: full slices, new axes, running loop variables"""
        parts = self.flatidx(idx)
        if len([p for p in parts if p.k == "loopvar"]) != len({id(p.a) for p in parts if p.k == "loopvar"}):
            return False                # a diagonal
        return all(p.k == "slice" and p.a or p.k == "loopvar" or p.k == "const" and (p.a is None or p.a is Ellipsis) for p in parts)

    def maskof(self, idx):
        parts = self.flatidx(idx)
        ms = [p for p in parts if p.k == "mask"]
        rest = [p for p in parts if p.k != "mask"]
        if not ms or any(not (p.k == "slice" and p.a or p.k == "loopvar" or p.k == "const") for p in rest):
            return None
        if all(m.a == ms[0].a and m.b == ms[0].b for m in ms):
            return ms[0]
        return V("mask", frozenset.intersection(*[m.a for m in ms]), frozenset.intersection(*[m.b for m in ms]), "elem")

    def store(self, b, idx, v, node):
        if b.k == "num":
            old, new = self.num(b), self.num(v)
            m = self.maskof(idx)
            if m is not None:
                kept = self.refined(old, m.a)
                r = self.joinN(kept, new)
                if kept.good and new.good:
                    r = r.but(off=None, und=False)
                if r.alt is None and not old.good:
                    r = r.but(alt=old.alt or old.form)
                bits = {bit for bit in ("lo", "hi") if getattr(new, bit)}
                via = {i: b & bits for i, b in (old.via or {}).items()}
                via[old.ident] = bits
                r = r.but(via=via)
            elif self.covers(idx):
                r = new
            else:
                p = self.flatidx(idx)[0]
                k = p.a if p.k == "const" and isinstance(p.a, int) and not isinstance(p.a, bool) else None
                if k is not None and all(q.k == "slice" and q.a for q in self.flatidx(idx)[1:]):
                    # rows addressed one by one
                    parts = dict(self.st.heap.get(("parts", b.a)) or {"base": self.new(old)})
                    parts[k] = self.new(new)
                    rows = [self.num(w) for q, w in parts.items() if q != "base"]
                    if not (0 in parts and 1 in parts):
                        rows.append(self.num(parts["base"]))
                    r = rows[0]
                    for w in rows[1:]:
                        r = self.joinN(r, w)
                    self.st.heap[("parts", b.a)] = parts
                    self.st.heap[b.a] = r.but(ident=self.id())
                    return
                r = self.joinN(old, new)
            self.st.heap.pop(("parts", b.a), None)
            self.st.heap[b.a] = r.but(ident=self.id())
        elif b.k == "pop":
            if v.k == "pop":
                x, y = self.popX(b), self.popX(v)
                if y is not None:
                    if x is None or self.covers(idx):
                        self.st.heap[b.a]["X"] = y
                    else:
                        self.st.heap[b.a]["X"] = self.new(self.joinN(self.num(x), self.num(y)))
            elif v.k != "user":
                self.st.heap[b.a]["X"] = self.new(self.und())
        elif b.k == "dict":
            key = idx.a if idx.k == "const" else None
            d = self.st.heap.setdefault(b.a, {})
            if isinstance(key, str):
                d[key] = v
        elif b.k == "seq" and isinstance(node.value, ast.Name):
            self.st.env[node.value.id] = V("seq", None, self.joinall(list(b.a or ()) + ([b.b] if b.b else []) + [v]))

    def augment(self, s):
        t = s.target
        load = ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else t
        a, b = self.ev(load), self.ev(s.value)
        if isinstance(t, ast.Name) and a.k == "seq" and isinstance(s.op, ast.Add):
            self.st.env[t.id] = self.binop(s.op, a, b, s)
            return
        r = self.binop(s.op, a, b, s)
        if isinstance(t, ast.Name) and a.k == "num" and r.k == "num":
            self.st.heap[a.a] = self.num(r)      # in place
        else:
            self.assign(t, r, s)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return UND
        return m(e)

    def x_Constant(self, e):
        return V("const", e.value)

    def x_Name(self, e):
        v = self.st.env.get(e.id)
        if v is not None:
            return v
        fr = self.frames[-1]
        if fr.closure and e.id in fr.closure:
            return fr.closure[e.id]
        return self.global_value(self.repo.resolve(e, self.module(), fr.func), e.id)

    def module(self):
        fr = self.frames[-1]
        return fr.func.module if fr.func is not None else fr.cls

    def in_module(self, e, module):
        fr = Frame(None, module)
        saved = self.st.env
        self.st.env = {}
        self.frames.append(fr)
        try:
            return self.ev(e)
        finally:
            self.frames.pop()
            self.st.env = saved

    def global_value(self, r, name=None):
        if isinstance(r, Func):
            return V("func", r)
        if isinstance(r, Class):
            return V("cls", r)
        if isinstance(r, Ext):
            return self.extvalue(r.path)
        if isinstance(r, ModRef):
            return V("mod", r.name)
        if isinstance(r, Var):
            n = r.node
            val = n if isinstance(n, ast.expr) else getattr(n, "value", None)
            if isinstance(val, ast.expr):
                if self.depth > MAXDEPTH:
                    return UND
                self.depth += 1
                try:
                    return self.in_module(val, r.module)
                finally:
                    self.depth -= 1
            return UND
        if r is None and name in ("min", "max", "abs", "len", "range", "zip", "enumerate", "list", "tuple", "sorted", "reversed", "float", "int", "sum", "isinstance", "callable", "any", "all", "round", "bool", "dict", "set", "map", "getattr", "setattr", "next", "iter", "pow", "deepcopy"):
            return V("ext", "builtins." + name)
        return UND

    def extvalue(self, path):
        nm = path.split(".")[-1]
        if nm in ("pi", "e"):
            return V("const", 3.141592653589793 if nm == "pi" else 2.718281828459045)
        if nm in ("inf", "Inf", "infty"):
            return self.fresh(1e18)
        if nm in ("nan", "NINF"):
            return self.fresh()
        if nm == "newaxis":
            return NONE
        return V("ext", path)

    def x_Attribute(self, e, call=False):
        b = e.value
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(b, ast.Name) and b.id not in self.st.env:
            m = self.repo.resolve(e.value, self.module(), self.frames[-1].func)
            r = self.repo.resolve(e, self.module(), self.frames[-1].func)
            if r is not None and not isinstance(m, Class):
                return self.global_value(r, None)
        v = self.ev(e.value)
        if e.attr == "random_state" or (e.attr.endswith("random_state") and v.k in ("und", "user")):
            return V("rng")
        r = self.attribute(v, e.attr, e)
        return USER if not call and r.k == "bound" and isinstance(r.a, V) and r.a.k == "user" else r

    def attribute(self, v, name, e):
        if v.k == "mod":
            return self.global_value(self.repo.lookup_global(v.a, name))
        if v.k == "ext":
            return self.extvalue(v.a + "." + name)
        if v.k == "problem":
            if name in ("xl", "xu"):
                return self.new(self.bound("BL" if name == "xl" else "BU"))
            if name in ("n_var", "n_obj"):
                return self.fresh(1.0)
            return V("bound", v, name)
        if v.k == "pop":
            if name in ("X", "x"):
                x = self.popX(v)
                if x is None:
                    x = self.st.heap[v.a]["X"] = self.new(self.und())
                return x
            if name in ("F", "G", "H", "CV", "f", "cv", "FEAS", "feas", "cv"):
                return self.fresh()
            if name in ("shape", "size"):
                return UND
            return V("bound", v, name)
        if v.k == "num":
            if name in ("T", "real", "flat"):
                return v
            if name in ("shape", "dtype", "ndim", "size"):
                return V("shape", v) if name == "shape" else self.fresh(0.0) if name != "dtype" else UND
            return V("bound", v, name)
        if v.k == "obj":
            h = self.st.heap.get(v.a, {})
            if name in h:
                return h[name]
            c = v.b
            m = c.lookup_attr(name) if isinstance(c, Class) else None
            if isinstance(m, Func):
                if "property" in m.decorator_names():
                    return self.inline(m, {m.args[0]: v} if m.args else {}, e, c)
                return V("bound", v, m)
            if m is not None and not isinstance(m, (Class, Ext)) and isinstance(m, Var):
                return self.global_value(m)
            if name == "problem":
                return self.problem
            return USER if v.c == "root" else UND
        if v.k == "obj2":
            return self.joinall([self.attribute(x, name, e) for x in v.a])
        if v.k == "user":
            if name in ("X", "x"):
                if v.a is None:
                    return self.new(self.point())
                if ("ux", v.a) not in self.st.heap:
                    self.st.heap[("ux", v.a)] = {"X": self.new(self.point())}
                return self.st.heap[("ux", v.a)]["X"]
            if name == "problem":
                return self.problem
            if name in ("F", "CV", "G", "H"):
                return self.fresh()
            return V("bound", v, name)
        if v.k == "cls":
            m = v.a.lookup_attr(name) if isinstance(v.a, Class) else None
            return V("func", m) if isinstance(m, Func) else UND
        if v.k in ("seq", "dict", "mask", "rng", "und", "opt", "range", "const", "count"):
            if v.k == "mask" and name in ("T",):
                return v
            return V("bound", v, name)
        return UND

    def x_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    w = self.ev(x.value)
                    if w.k == "seq" and w.a is not None:
                        out += w.a
                    else:
                        return V("seq", None, self.joinall(out + [self.item(w, "star")] + [self.ev(y) for y in e.elts if not isinstance(y, ast.Starred)]))
                else:
                    out.append(self.ev(x))
            return V("seq", tuple(out))
        return V("seq", tuple(self.ev(x) for x in e.elts))

    x_List = x_Set = x_Tuple

    def x_Dict(self, e):
        o = ("d", self.id())
        self.st.heap[o] = {}
        d = {}
        for k, v in zip(e.keys, e.values):
            w = self.ev(v)
            if k is None:
                if w.k == "dict":
                    d.update(self.st.heap.get(w.a, {}))
                continue
            kk = self.ev(k)
            d[kk.a if kk.k == "const" else f"?{len(d)}"] = w
        self.st.heap[o] = d
        return V("dict", o)

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def x_JoinedStr(self, e):
        return UND

    def x_Lambda(self, e):
        return V("lambda", e, (dict(self.st.env), self.frames[-1]))

    def x_Starred(self, e):
        return self.ev(e.value)

    def x_Slice(self, e):
        return self.ev_index(e)

    def x_IfExp(self, e):
        before, outs = self.st, []
        for pol, x in ((True, e.body), (False, e.orelse)):
            self.st = before.copy()
            if self.truth(e.test, pol):
                v = self.ev(x)
                outs.append((self.st, v))
        if not outs:
            self.st = before
            return UND
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        return self.joinpaths(outs)

    def joinpaths(self, outs):
        """states and the values they end with"""
        st = None
        for i, (s, v) in enumerate(outs):
            s.env = dict(s.env)
            s.env["$r"] = v
            st = s if st is None else self.joinst(st, s)
        self.st = st
        return self.st.env.pop("$r", UND)

    def x_BoolOp(self, e):
        vs = [self.ev(v) for v in e.values]
        if isinstance(e.op, ast.Or) and vs[0].k == "opt":
            return vs[-1]
        if all(v.k == "const" for v in vs):
            r = vs[0]
            for v in vs[1:]:
                r = v if bool(r.a) == isinstance(e.op, ast.And) else r
            return r
        return UND

    def x_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            if v.k == "const" and isinstance(v.a, (int, float)):
                return V("const", -v.a)
            if v.k in ("num",):
                return self.new(self.arith(ast.Sub(), self.const(0), self.num(v), e))
            return UND
        if isinstance(e.op, ast.Not):
            if v.k == "const":
                return V("const", not v.a)
            return V("mask", v.b, v.a, "elem") if v.k == "mask" else UND
        if isinstance(e.op, ast.Invert):
            return V("mask", v.b, v.a, "elem") if v.k == "mask" else UND
        return v

    def x_Compare(self, e):
        a = self.ev(e.left)
        if len(e.ops) > 1:
            ms, left = [], a
            for op, c in zip(e.ops, e.comparators):
                b = self.ev(c)
                ms.append(self.tomask(self.compared(op, left, b)))
                left = b
            return V("mask", frozenset.intersection(*[m.a for m in ms]), frozenset.union(*[m.b for m in ms]), "elem")
        return self.compared(e.ops[0], a, self.ev(e.comparators[0]))

    def compared(self, op, a, b):
        if a.k == b.k == "const" and isinstance(op, (ast.Eq, ast.NotEq)):
            return V("const", (a.a == b.a) == isinstance(op, ast.Eq))
        if isinstance(op, (ast.Is, ast.IsNot)):
            for x, y in ((a, b), (b, a)):
                if x.k == "const" and x.a is None and y.k not in ("opt", "und", "user"):
                    return V("const", (y.k == "const" and y.a is None) == isinstance(op, ast.Is))
            return UND
        if all(x.k in ("num", "const", "seq") for x in (a, b)):
            return self.compare(op, a, b)
        return V("mask", frozenset(), frozenset(), "elem") if any(x.k in ("num", "pop", "user", "und") for x in (a, b)) else UND

    def x_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)

    def binop(self, op, a, b, node):
        if a.k == "mask" or b.k == "mask":
            if a.k == b.k == "mask" and isinstance(op, ast.BitOr):
                return V("mask", a.a | b.a, a.b & b.b, "elem")
            if a.k == b.k == "mask" and isinstance(op, ast.BitAnd):
                return V("mask", a.a & b.a, a.b | b.b, "elem")
            return V("mask", frozenset(), frozenset(), "elem") if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)) else UND
        if a.k == "seq" and b.k == "seq" and isinstance(op, ast.Add):
            if a.a is not None and b.a is not None:
                return V("seq", a.a + b.a)
            return V("seq", None, self.joinall([x for v in (a, b) for x in (v.a if v.a is not None else [v.b]) if x is not None]))
        if isinstance(op, ast.Mult) and "seq" in (a.k, b.k) and any(x.k == "const" or x.k == "num" and self.ranged(self.num(x)) or x.k in ("und", "count") for x in (a, b)):
            s = a if a.k == "seq" else b
            return V("seq", None, self.item(s, "mult")) if s.a != () else s
        if all(x.k in ("num", "seq") or (x.k == "const" and isinstance(x.a, (int, float)) and not isinstance(x.a, bool)) or x.k == "count" for x in (a, b)):
            if a.k == b.k == "const":
                r = self.arith(op, self.num(a), self.num(b), node)
                c = pconst(self.poly(r)) if self.ranged(r) else None
                return V("const", c) if c is not None else self.new(r)
            a, b = (self.fresh(0.0) if x.k == "count" else x for x in (a, b))
            return self.new(self.arith(op, self.num(a), self.num(b), node))
        if "opt" in (a.k, b.k) or "user" in (a.k, b.k):
            # a number the user gave or the algorithm keeps: unknown
            w = [self.num(x) if x.k in ("num", "seq", "const") else self.number() if x.k in ("opt", "user") else self.und() for x in (a, b)]
            return self.new(self.arith(op, w[0], w[1], node))
        if "num" in (a.k, b.k):
            return self.new(self.und())
        return UND

    def x_Subscript(self, e):
        b = self.ev(e.value)
        idx = self.ev_index(e.slice)
        return self.subscript(b, idx)

    def subscript(self, b, idx):
        if b.k == "num":
            m = self.maskof(idx)
            n = self.num(b)
            if m is not None:
                # within a mask the facts hold, and a copy keeps its identity for masks over the same elements
                return self.new(self.refined(n, m.b))
            if self.covers(idx):
                return b
            p = self.flatidx(idx)[0]
            k = p.a if p.k == "const" and isinstance(p.a, int) and not isinstance(p.a, bool) else None
            if k is not None and all(q.k == "slice" and q.a for q in self.flatidx(idx)[1:]):
                parts = self.st.heap.get(("parts", b.a))
                if parts and k in parts:
                    return self.new(self.st.heap[parts[k].a])
            return self.new(self.part(n, idx))
        if b.k == "pop":
            return b if self.covers(idx) and idx.k != "loopvar" else V("pop", b.a, True)
        if b.k == "mask":
            return b if idx.k == "const" or idx.k == "slice" else V("mask", frozenset(), frozenset(), "elem")
        if b.k == "seq":
            if b.a is not None:
                if idx.k == "const" and isinstance(idx.a, int) and -len(b.a) <= idx.a < len(b.a):
                    return b.a[idx.a]
                if idx.k == "slice":
                    return V("seq", tuple(b.a[::-1])) if idx.a and idx.b else b if idx.a else V("seq", None, self.joinall(b.a))
                return self.joinall(b.a) or UND
            return b if idx.k == "slice" else b.b or UND
        if b.k == "dict":
            d = self.st.heap.get(b.a, {})
            if idx.k == "const":
                return d.get(idx.a, UND)
            return self.joinall(list(d.values())) or UND
        if b.k == "user":
            return V("user", self.id()) if idx.k not in ("slice",) else b
        if b.k == "shape":
            rows = self.num(b.a).rows if b.a is not None and idx.k == "const" and idx.a == 0 else None
            return self.new(N(form={None: rows}, ident=self.id())) if rows is not None else self.fresh(0.0)
        return UND

    def part(self, n, idx=None):
        """some of the elements: not the ones at the same position of another part"""
        def key(p):
            if p.k == "const":
                return ("k", p.a)
            if p.k == "slice":
                return ("s", p.a, self.id() if not p.a else 0)
            if p.k == "loopvar":
                p = p.a
            if p.k == "num":
                return ("n", self.num(p).ident)
            return ("?", self.id())
        k = (n.ident,) + tuple(key(p) for p in (self.flatidx(idx) if idx is not None else [V("unk")]))
        if n.form is None or n.und:
            return n.but(ident=k) if n.form is None and not n.und else n.but(ident=self.id())
        if self.ranged(n):
            if pconst(self.poly(n)) is not None:
                return n
            v = ("e", k)
            self.rng[v] = self.interval(self.poly(n))
            return N(form={None: {(v,): 1.0}}, off=n.off, ident=k, blank=n.blank)
        if set(n.form) <= {None, "BL", "BU"} and all(pconst(p) is not None for p in n.form.values()):
            return n.but(ident=k)
        k = k[1:]

        def var(v):
            w = ("e", v, k)
            self.rng[w] = self.rng[v]
            if v in self.slopes:
                self.slopes.add(w)
            return w
        form = {}
        for s, p in n.form.items():
            t = s
            if s not in (None, "BL", "BU"):
                t = ("e", s, k)
                self.pts[t] = self.pts[s]
            form[t] = {tuple(sorted((var(v) for v in m), key=repr)): c for m, c in p.items()}
        return n.but(form=form, ident=(n.ident,) + k, alt=None, via=None)

    def x_ListComp(self, e):
        fr = self.frames[-1]
        saved = dict(self.st.env)
        new = set()
        for g in e.generators:
            v = self.ev(g.iter)
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)} - fr.loopvars
            new |= names
            fr.loopvars |= names
            el = self.elements(v)
            if el is not None and len(el) <= 6 and len(e.generators) == 1 and not g.ifs:
                out = []
                for x in el:
                    self.assign(g.target, x, e)
                    out.append(self.ev(e.elt))
                fr.loopvars -= new
                self.restore(saved)
                return V("seq", tuple(out))
            self.assign(g.target, self.item(v, "loop"), e)
            for c in g.ifs:
                self.truth(c, True)
        r = self.ev(e.elt)
        fr.loopvars -= new
        self.restore(saved)
        return V("seq", None, r)

    def restore(self, env):
        self.st.env = env

    x_GeneratorExp = x_SetComp = x_ListComp

    def x_DictComp(self, e):
        fake = ast.ListComp(elt=e.value, generators=e.generators)
        r = self.x_ListComp(fake)
        o = ("d", self.id())
        self.st.heap[o] = {"?": r.b if r.a is None else self.joinall(r.a) or UND}
        return V("dict", o)

    def x_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        fr = self.frames[-1]
        if fr.func is not None and not fr.func.module.name.startswith("pymoo.algorithms"):
            fr.yields.append(v)             # an ordinary generator
            return UND
        self.sink(v, e)
        return v

    def x_YieldFrom(self, e):
        return self.ev(e.value)

    def x_Await(self, e):
        return self.ev(e.value)

    def sink(self, v, node, what=None):
        """candidates leave the algorithm here"""
        fr = next(f for f in reversed(self.frames) if f.func is not None)
        for n in self.contents(v):
            self.sinks.append((fr.func, node, n))

    def evaluated(self, args, node):
        fr = next(f for f in reversed(self.frames) if f.func is not None)
        if fr.func.module.name.startswith("pymoo.algorithms") and len(args) > 1:
            self.sink(args[1], node)

    def contents(self, v):
        if v.k == "pop":
            x = self.popX(v)
            return [self.num(x) if x is not None else self.und()]
        if v.k == "num":
            return [self.num(v)]
        if v.k == "seq":
            return [n for x in (v.a if v.a is not None else [v.b]) if x is not None for n in self.contents(x)]
        if v.k == "const" and v.a is None:
            return []
        if v.k == "user":
            return []
        return [self.und()]

    # ------------------------------------------------------------------ calls
    def inline(self, f, env, node, cls=None, closure=None):
        if self.depth >= MAXDEPTH or sum(1 for fr in self.frames if fr.func is f) > 2:
            self.unknown["depth " + f.qual] = 1
            return UND
        if "abstractmethod" in f.decorator_names():
            return UND
        saved = self.st.env
        fr = Frame(f, cls)
        fr.closure = closure
        e = dict(env)
        self.defaults(f, e)
        self.st.env = e
        self.frames.append(fr)
        self.depth += 1
        try:
            r = self.block(f.body)
            outs = list(fr.returns)
            if r is None:
                outs.append((self.st, NONE))
            if not outs:
                raise Stop()
            v = self.joinpaths(outs) if len(outs) > 1 else self.single(outs[0])
            if fr.yields:
                v = V("seq", None, self.joinall(fr.yields))
            self.st.env = saved
            return v
        except Stop:
            self.st.env = saved
            raise
        finally:
            self.frames.pop()
            self.depth -= 1

    def single(self, o):
        self.st = o[0]
        return o[1]

    def defaults(self, f, env):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in env:
                if p.arg == "random_state":
                    env[p.arg] = V("rng")
                    continue
                env[p.arg] = self.in_module(d, f.module)
        for p in pos + a.kwonlyargs:
            env.setdefault(p.arg, V("rng") if p.arg == "random_state" else self.problem if p.arg in ("problem", "_problem") else UND)
        if a.vararg is not None:
            env.setdefault(a.vararg.arg, V("seq", ()))
        if a.kwarg is not None and a.kwarg.arg not in env:
            o = ("d", self.id())
            self.st.heap[o] = {}
            env[a.kwarg.arg] = V("dict", o)

    def bindcall(self, f, args, kws, first=None):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = ([first] if first is not None else []) + list(args)
        env = dict(zip(pos, vals))
        if a.vararg is not None:
            env[a.vararg.arg] = V("seq", tuple(vals[len(pos):]))
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kws.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            o = ("d", self.id())
            self.st.heap[o] = extra
            env[a.kwarg.arg] = V("dict", o)
        return env

    def x_Call(self, e):
        fn = e.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and "super" not in self.st.env:
            t = self.supercall(fn.attr)
        elif isinstance(fn, ast.Attribute):
            t = self.x_Attribute(fn, True)
        else:
            t = self.ev(fn)
        args, kws, openpos = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if v.k == "seq" and v.a is not None:
                    args += v.a
                elif v.k == "seq":
                    args.append(v.b or UND)
                    openpos = True
                else:
                    args.append(V("pop", v.a, True) if v.k == "pop" else v if v.k == "user" else UND)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v.k == "dict":
                    for n, w in self.st.heap.get(v.a, {}).items():
                        if isinstance(n, str) and not n.startswith("?"):
                            kws.setdefault(n, w)
            else:
                kws[k.arg] = v
        return self.apply(t, args, kws, e)

    def supercall(self, name):
        fr = next((f for f in reversed(self.frames) if f.func is not None and f.func.cls is not None), None)
        if fr is None or not fr.func.args:
            return UND
        slf = self.st.env.get(fr.func.args[0]) if fr is self.frames[-1] else None
        cls = slf.b if slf is not None and slf.k == "obj" else fr.cls or fr.func.cls
        m = cls.lookup(name, after=fr.func.cls) if isinstance(cls, Class) else None
        if isinstance(m, Func):
            return V("bound", slf if slf is not None else UND, m)
        return UND

    def apply(self, t, args, kws, node):
        if t.k == "any":
            before, outs = self.st, []
            for x in t.a:
                self.st = before.copy()
                try:
                    v = self.apply(x, args, kws, node)
                    outs.append((self.st, v))
                except Stop:
                    pass
            if not outs:
                raise Stop()
            return self.joinpaths(outs)
        if t.k == "lambda":
            env, fr = t.b
            saved = self.st.env
            self.depth += 1
            self.st.env = {**saved, **{k: v for k, v in env.items()}}
            f2 = Frame(fr.func, fr.cls)
            self.frames.append(f2)
            try:
                if self.depth > MAXDEPTH:
                    return UND
                lam = t.a
                for p, v in zip(lam.args.args, args):
                    self.st.env[p.arg] = v
                n = len(lam.args.args) - len(lam.args.defaults)
                for i, (p, d) in enumerate(zip(lam.args.args[n:], lam.args.defaults)):
                    if n + i >= len(args):
                        self.st.env[p.arg] = kws.get(p.arg) or self.ev(d)
                return self.ev(lam.body)
            finally:
                self.frames.pop()
                self.depth -= 1
                self.st.env = saved
        if t.k == "func":
            f = t.a
            r = self.hook(f, None, args, kws, node)
            if r is not None:
                return r
            if f.is_classmethod:
                return self.inline(f, self.bindcall(f, args, kws, first=V("cls", f.cls)), node, f.cls)
            clo = t.b
            return self.inline(f, self.bindcall(f, args, kws), node, f.cls, clo)
        if t.k == "bound":
            slf, m = t.a, t.b
            if isinstance(m, Func):
                r = self.hook(m, slf, args, kws, node)
                if r is not None:
                    return r
                if m.is_static:
                    return self.inline(m, self.bindcall(m, args, kws), node, m.cls)
                if m.is_classmethod:
                    return self.inline(m, self.bindcall(m, args, kws, first=V("cls", slf.b if slf.k == "obj" else m.cls)), node, m.cls)
                return self.inline(m, self.bindcall(m, args, kws, first=slf), node, slf.b if slf.k == "obj" else m.cls)
            return self.method(slf, m, args, kws, node)
        if t.k == "cls":
            return self.construct(t.a, args, kws, node)
        if t.k == "obj":
            m = t.b.lookup("__call__") if isinstance(t.b, Class) else None
            if isinstance(m, Func):
                r = self.hook(m, t, args, kws, node)
                if r is not None:
                    return r
                return self.inline(m, self.bindcall(m, args, kws, first=t), node, t.b)
            return UND
        if t.k == "obj2":
            return self.apply(V("any", t.a), args, kws, node)
        if t.k == "ext":
            return self.external(t.a, args, kws, node)
        if t.k in ("user", "opt", "und") and isinstance(node, ast.Call):
            return self.role(node.func, args, kws, t)
        return UND

    def role(self, fn, args, kws, t):
        nm = fn.attr if isinstance(fn, ast.Attribute) else ""
        if nm == "eval" and isinstance(fn.value, ast.Attribute) and fn.value.attr == "evaluator":
            self.evaluated(args, fn)
            return next((a for a in args if a.k in ("pop", "user", "seq")), UND)
        """a component given by the user is applied to a population: what it returns stays within the bounds when what it gets does"""
        pops = [a for a in args if a.k == "pop"]
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        if pops:
            return pops[0]
        return USER if t.k == "user" else UND

    def construct(self, cls, args, kws, node):
        if not isinstance(cls, Class):
            return UND
        if self.isa(cls, "Individual"):
            x = kws.get("X")
            return self.newpop(self.asnum(x) if x is not None else None)
        if self.isa(cls, "Population"):
            ps = [a for v in args for a in ([v] if v.k != "seq" else (v.a if v.a is not None else [v.b])) if a is not None]
            if not ps:
                return self.blankpop()
            if any(p.k == "user" for p in ps):
                return self.newpop(self.new(self.point()))
            return self.merge(ps) if all(p.k == "pop" for p in ps) else self.newpop(self.new(self.und()))
        o = self.newobj(cls)
        if cls.name in ("Real", "Integer", "Choice", "Binary"):
            s = kws.get("strict") or kws.get("bounds")
            if s is not None and s.k == "seq" and s.a is not None and len(s.a) == 2 and cls.name == "Real":
                vs = [self.num(x) for x in s.a]
                if all(self.ranged(v) for v in vs):
                    return self.fresh(self.interval(self.poly(vs[0]))[0], self.interval(self.poly(vs[1]))[1])
            return self.fresh() if cls.name in ("Real", "Integer") else UND
        init = cls.lookup("__init__")
        if isinstance(init, Func) and self.hook(init, o, args, kws, node) is None:
            self.inline(init, self.bindcall(init, args, kws, first=o), node, cls)
        return o

    def asnum(self, v):
        return v if v.k == "num" else self.new(self.num(v)) if v.k in ("seq", "const") else self.new(self.point()) if v.k == "user" else self.new(self.und())

    def blankpop(self):
        return self.newpop(self.new(self.const(0).but(blank=True)))

    def popctor(self, name, args, kws):
        if name == "new":
            x = kws.get("X")
            for i in range(0, len(args) - 1, 2):
                if args[i].k == "const" and args[i].a == "X":
                    x = args[i + 1]
            return self.newpop(self.new(self.num(self.asnum(x))) if x is not None else None)
        ps = [a for v in args for a in ([v] if v.k != "seq" else (v.a if v.a is not None else [v.b])) if a is not None]
        ps = [p for p in ps if not (p.k == "const" and p.a is None)]
        if not ps:
            return self.blankpop()
        ps = [self.newpop(self.new(self.point())) if p.k == "user" else p for p in ps]
        return self.merge(ps) if all(p.k == "pop" for p in ps) else self.newpop(self.new(self.und()))

    def parameter(self, v):
        """the values of a (possibly controlled) parameter"""
        if v.k != "obj" or not isinstance(v.b, Class) or not self.isa(v.b, "Variable"):
            return v
        if not self.isa(v.b, "BoundedVariable"):
            return UND
        lim = self.st.heap.get(v.a, {}).get("strict")
        lo, hi = -INF, INF
        if lim is not None and lim.k == "seq" and lim.a and len(lim.a) == 2:
            lo, hi = (x.a if x.k == "const" and isinstance(x.a, (int, float)) else d for x, d in zip(lim.a, (-INF, INF)))
        return self.fresh(lo, hi)

    def hook(self, f, slf, args, kws, node):
        c = f.cls
        allv = list(args) + list(kws.values())
        if c is not None and self.isa(c, "Population") and f.name in ("new", "create", "merge", "empty"):
            return self.popctor(f.name, args, kws)
        if f.name == "get" and (c is None and f.module.name.endswith("core.variable") or self.isa(c, "Variable")):
            xs = [self.parameter(v) for v in (args if c is None else [slf])]
            return xs[0] if len(xs) == 1 else V("seq", tuple(xs))
        cls = slf.b if slf is not None and slf.k == "obj" else c
        if f.name in ("do", "__call__") and slf is not None and slf is not self.enclosing:
            pops = [a for a in allv if a.k in ("pop", "user")]
            for fam in ("Survival", "Selection", "DuplicateElimination", "ReplacementSurvival", "Decomposition"):
                if self.isa(cls, fam):
                    ri = kws.get("return_indices") or kws.get("to_itself")
                    if fam == "ReplacementSurvival" or fam == "Survival" or fam == "Selection" or fam == "DuplicateElimination":
                        if ri is not None and ri.k == "const" and ri.a:
                            return V("seq", None, self.fresh(0.0)) if fam != "Selection" else UND
                        ps = [self.newpop(self.new(self.point())) if p.k == "user" else p for p in pops]
                        return self.merge(ps) if ps else UND
            if self.isa(cls, "Repair") and not self.isa(cls, "BoundsRepair"):
                return next((a for a in allv if a.k in ("pop", "user")), None)
            if self.isa(cls, "Mutation"):
                p = next((a for a in allv if a.k in ("pop", "user")), None)
                if p is not None and p.k == "user":
                    return self.newpop(self.new(self.point()))
                return p
            if self.isa(cls, "Sampling") or self.isa(cls, "Initialization"):
                return self.newpop(self.new(self.point()))
            if self.isa(cls, "Crossover") or self.isa(cls, "InfillCriterion"):
                ps = [a for a in allv if a.k == "pop"]
                xs = [self.num(self.popX(p)) for p in ps if self.popX(p) is not None]
                if all(x.good for x in xs):
                    return self.newpop(self.new(self.point()))
                return self.newpop(self.new(self.und()))
        if c is not None and c.name == "ZeroToOneNormalization" and slf is not None and slf.k == "obj":
            h = self.st.heap[slf.a]
            if f.name == "__init__":
                for i, k in enumerate(("xl", "xu")):
                    h[k] = kws.get(k) or (args[i] if len(args) > i else NONE)
                return NONE
            if f.name in ("forward", "backward") and args:
                x, xl, xu = self.num(self.asnum(args[0])), self.num(h.get("xl", UND)), self.num(h.get("xu", UND))
                if any(n.und for n in (x, xl, xu)):
                    return self.new(self.und())
                r = self.arith(ast.Sub(), xu, xl, node)
                if f.name == "forward":
                    return self.new(self.arith(ast.Div(), self.arith(ast.Sub(), x, xl, node), r, node))
                return self.new(self.arith(ast.Add(), xl, self.arith(ast.Mult(), x, r, node), node))
        if f.name in ("eval",) and c is not None and self.isa(c, "Evaluator"):
            self.evaluated(args, node)
            return next((a for a in args if a.k in ("pop", "user", "seq")), UND)
        return None

    # ------------------------------------------------------------------ methods of values
    SAME = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view"}
    COPY = {"copy", "astype", "flatten", "repeat", "take", "tolist", "item", "round", "get"}
    RANDOM = {"random", "rand", "random_sample", "uniform", "normal", "standard_normal", "randn", "choice", "permutation", "integers", "randint", "shuffle", "beta", "exponential", "standard_cauchy", "standard_t", "gamma",
              "triangular", "permuted", "binomial", "multivariate_normal", "laplace", "cauchy"}

    def method(self, v, name, args, kws, node):
        if v.k == "rng" or (name in self.RANDOM and v.k in ("und", "opt", "user")):
            return self.random(name, args, kws, node)
        if v.k == "problem":
            if name == "bounds":
                return V("seq", (self.new(self.bound("BL")), self.new(self.bound("BU"))))
            if name in ("has_bounds",):
                return TRUE
            if name == "has_constraints":
                return UND
            return UND
        if v.k == "pop" and name in ("new", "create", "merge", "empty"):
            return self.popctor(name, [v] + list(args) if name == "merge" else args, kws)
        if v.k in ("pop", "user"):
            if name == "get":
                out = []
                for a in args:
                    nm = a.a if a.k == "const" else None
                    if nm == "X":
                        x = self.popX(v) if v.k == "pop" else self.new(self.point())
                        out.append(self.new(self.num(x)) if x is not None else self.new(self.und()))
                    elif nm in ("xl", "xu"):
                        out.append(self.new(self.point()))      # the sub-box a solution was sampled from
                    else:
                        out.append(self.fresh() if nm is not None else UND)
                return out[0] if len(out) == 1 else V("seq", tuple(out)) if out else UND
            if name == "set":
                pairs = {args[i].a: args[i + 1] for i in range(0, len(args) - 1, 2) if args[i].k == "const"}
                pairs.update(kws)
                if "X" in pairs and v.k == "pop":
                    self.setattr(v, "X", self.asnum(pairs["X"]))
                return v
            if name in ("copy", "tolist", "flatten", "reshape", "ravel", "astype", "item"):
                if v.k == "user":
                    return USER
                if name in ("copy",):
                    x = self.popX(v)
                    return self.newpop(self.new(self.num(x)) if x is not None else None)
                return v
            if v.k == "user":
                return self.role(node.func if isinstance(node, ast.Call) else None, args, kws, v)
            return UND
        if v.k == "num":
            n = self.num(v)
            if name in self.SAME:
                return v
            if name in self.COPY:
                return self.new(n if name != "round" else (self.number() if self.ranged(n) else self.und()))
            if name == "clip":
                return self.clip(v, args, kws, node, "min", "max")
            if name == "fill":
                self.st.heap[v.a] = self.num(args[0]) if args else self.und()
                return NONE
            if name in ("min", "max", "mean"):
                return self.reduce(v, args, kws, node)
            if name in ("sum", "std", "var", "prod", "dot", "cumsum"):
                return self.fresh()
            if name == "argsort" and n.rows is not None and self.axis0(args, kws):
                return self.places(n.rows)
            if name in ("argsort", "argmin", "argmax", "nonzero"):
                return self.new(self.und())
            if name == "sort":
                return NONE
            return UND
        if v.k == "mask":
            if name in ("any", "all"):
                return V("mask", v.a if name == "any" else frozenset(), v.b if name == "all" else frozenset(), name)
            if name == "sum":
                return V("count", v.a)
            if name in ("nonzero", "copy", "astype", "reshape", "ravel", "flatten"):
                return v
            return UND
        if v.k == "seq":
            tgt = node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None
            if name in ("append", "insert", "add", "extend") and args:
                w = self.item(args[-1], "extend") if name == "extend" else args[-1]
                new = V("seq", None, self.joinall([x for x in (v.a if v.a is not None else [v.b]) if x is not None] + [w]))
                if isinstance(tgt, ast.Name):
                    self.st.env[tgt.id] = new
                elif isinstance(tgt, ast.Attribute):
                    self.setattr(self.ev(tgt.value), tgt.attr, new)
                return NONE
            if name in ("copy",):
                return v
            if name in ("pop",):
                return self.item(v, "pop")
            return UND
        if v.k == "dict":
            d = self.st.heap.get(v.a, {})
            if name in ("get", "pop", "setdefault"):
                if args and args[0].k == "const":
                    return d.get(args[0].a) or (args[1] if len(args) > 1 else OPT)
                return self.joinall(list(d.values())) or UND
            if name == "values":
                return V("seq", None, self.joinall(list(d.values())))
            if name == "items":
                return V("seq", None, V("seq", (UND, self.joinall(list(d.values())) or UND)))
            if name == "copy":
                o = ("d", self.id())
                self.st.heap[o] = dict(d)
                return V("dict", o)
            if name == "update":
                self.st.heap.setdefault(v.a, {}).update(kws)
                return NONE
            return UND
        return UND

    def axis0(self, args, kws):
        ax = kws.get("axis") or (args[0] if args else None)
        return ax is not None and ax.k == "const" and ax.a == 0

    def reduce(self, v, args, kws, node):
        ax = kws.get("axis") or (args[0] if args else None)
        n = self.num(v)
        if ax is not None and not (ax.k == "const" and ax.a is None):
            if ax.k == "const" and ax.a == 0:
                return self.new(N(form=n.form if self.ranged(n) else None, lo=n.lo, hi=n.hi, off=None if n.good else n.off, und=n.und, ident=self.id()))
            return self.fresh() if not n.und else self.new(self.und())
        return self.new(n.but(ident=self.id()) if self.ranged(n) else self.number() if not n.und else self.und())

    def minmax(self, a, b, isminimum, node):
        na, nb = (self.num(x) if x.k in ("num", "const", "seq") else self.number() if x.k in ("opt", "user") else self.und() for x in (a, b))
        hi = na.hi or nb.hi if isminimum else na.hi and nb.hi
        lo = na.lo and nb.lo if isminimum else na.lo or nb.lo
        if self.ranged(na) and self.ranged(nb):
            i, j = self.interval(self.poly(na)), self.interval(self.poly(nb))
            f = min if isminimum else max
            return self.new(self.number(f(i[0], j[0]), f(i[1], j[1])))
        und = (na.und or nb.und) and not (lo and hi)
        if und and any(self.ranged(x) for x in (na, nb)):
            # one side is known: half of the range
            r = next(x for x in (na, nb) if self.ranged(x))
            i = self.interval(self.poly(r))
            return self.new(self.number(*((-INF, i[1]) if isminimum else (i[0], INF))))
        off = None if (lo and hi) or und else next((x.off for x in (na, nb) if x.off), None)
        src = next((x for x in (na, nb) if x.form is not None and not self.isbound(x, "BL") and not self.isbound(x, "BU") and not x.good), None)
        alt = src.form if src is not None else next((x.alt for x in (na, nb) if x.alt), None)
        return self.new(N(lo=lo, hi=hi, off=off or (None if (lo and hi) or und else self.where(node)), und=und, ident=self.id(), alt=alt))

    def clip(self, v, args, kws, node, lo="a_min", hi="a_max"):
        a = kws.get(lo) or kws.get("min") or (args[0] if args else None)
        b = kws.get(hi) or kws.get("max") or (args[1] if len(args) > 1 else None)
        r = v
        for x, ismin in ((a, False), (b, True)):
            if x is not None and not (x.k == "const" and x.a is None):
                r = self.minmax(r, x, ismin, node)
        if kws.get("out") is not None and kws["out"].k == "num":
            self.st.heap[kws["out"].a] = self.num(r)
        return r

    def rowsof(self, v):
        """the number of rows of an array of that size"""
        if v is not None and v.k == "seq" and v.a:
            v = v.a[0]
        if v is None or v.k != "num":
            return None
        n = self.num(v)
        p = self.poly(n) if self.ranged(n) else None
        if p is None or len(p) != 1 or next(iter(p.values())) != 1.0 or len(next(iter(p))) != 1:
            return None
        return p if self.interval(p)[0] >= 1 else None

    def places(self, rows):
        """the numbers 0, ..., n - 1"""
        w = self.var(0.0, 1.0)
        return self.new(N(form={None: padd(pmul(w, rows), w, -1.0)}, ident=self.id(), rows=rows))

    def random(self, name, args, kws, node):
        if name in ("random", "rand", "random_sample", "beta"):
            return self.new(self.number(0.0, 1.0).but(rows=self.rowsof(kws.get("size") or (args[0] if args and name != "beta" else None))))
        if name == "uniform":
            a = args[0] if args else kws.get("low")
            b = args[1] if len(args) > 1 else kws.get("high")
            if a is None and b is None:
                return self.fresh(0.0, 1.0)
            w = [self.num(x) if x is not None and x.k in ("num", "const", "seq") else self.const(d) if x is None else self.number() if x.k in ("opt", "user") else self.und() for x, d in ((a, 0.0), (b, 1.0))]
            u = self.number(0.0, 1.0)
            return self.new(self.arith(ast.Add(), w[0], self.arith(ast.Mult(), u, self.arith(ast.Sub(), w[1], w[0], node), node), node))
        if name in ("normal", "laplace"):
            a = args[0] if args else kws.get("loc")
            if a is None:
                return self.fresh()
            w = self.num(a) if a.k in ("num", "const", "seq") else self.number()
            return self.new(self.arith(ast.Add(), w, self.number(), node))
        if name in ("choice", "permutation", "permuted"):
            if args and args[0].k == "pop":
                return V("pop", args[0].a, True)
            if args and args[0].k == "num":
                if name == "permutation" and self.rowsof(args[0]) is not None:
                    return self.places(self.rowsof(args[0]))
                return self.new(self.num(args[0]).but(ident=self.id()))
            if args and args[0].k == "seq":
                return self.item(args[0], "choice")
            if args and args[0].k == "user":
                return USER
            return UND
        if name in ("integers", "randint"):
            # from the lower value up to, but without, the upper one
            a = args[0] if args else kws.get("low")
            b = args[1] if len(args) > 1 else kws.get("high")
            if a is not None and b is not None:
                na, nb = self.num(self.asnum(a)), self.num(self.asnum(b))
                one = self.const(-1 if kws.get("endpoint") is None or kws["endpoint"].a is not True else 0)
                nb = self.arith(ast.Add(), nb, one, node)
                if na.form is not None and nb.form is not None and not na.und and not nb.und:
                    if (na.form.keys() - {None}) or (nb.form.keys() - {None}):
                        u = self.number(0.0, 1.0)
                        return self.new(self.arith(ast.Add(), na, self.arith(ast.Mult(), u, self.arith(ast.Sub(), nb, na, node), node), node))
            return self.new(self.und())
        if name in ("shuffle", "binomial"):
            return UND
        return self.fresh()

    KEEP = {"copy", "array", "asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "reshape", "ravel", "squeeze", "repeat", "tile", "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "take", "sort", "flip", "roll",
            "unique", "broadcast_to", "ascontiguousarray", "delete", "float64", "resize", "real", "fliplr", "flipud", "rot90", "list", "tuple", "reversed", "sorted", "float", "deepcopy", "fromiter", "take_along_axis", "compress", "partition"}
    VIEW = {"asarray", "atleast_1d", "atleast_2d", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "asanyarray", "expand_dims"}
    JOINS = {"vstack", "hstack", "concatenate", "stack", "column_stack", "row_stack", "append", "insert", "dstack", "block", "concat"}
    BLANK = {"zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like", "full_like", "eye", "identity"}
    BIN = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div, "mod": ast.Mod, "remainder": ast.Mod, "power": ast.Pow, "fmod": ast.Mod, "pow": ast.Pow, "float_power": ast.Pow}
    CMP = {"less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE}
    NUMERIC = {"exp", "log", "sin", "cos", "tan", "arctan", "sign", "log10", "log2", "square", "std", "var", "sum", "prod", "dot", "norm", "floor", "ceil", "rint", "round", "cumsum", "inner", "outer", "cdist", "linspace", "arange", "tanh",
               "expm1", "log1p", "matmul", "arctan2", "hypot", "cross", "trace", "average", "quantile", "percentile", "nansum", "cbrt", "int", "sinh", "cosh", "math"}

    def external(self, path, args, kws, node):
        nm = path.split(".")[-1]
        a0 = args[0] if args else next(iter(kws.values()), None)
        out = kws.get("out")
        r = self.ext(nm, a0, args, kws, node, path)
        if out is not None and out.k == "num" and nm != "clip":
            self.st.heap[out.a] = self.num(r)
        return r

    def ext(self, nm, a0, args, kws, node, path):
        if path.startswith("numpy.random.") and nm in self.RANDOM:
            return self.random(nm, args, kws, node)
        if nm in ("RandomState", "default_rng", "Generator"):
            return V("rng")
        if a0 is None:
            return V("seq", ()) if nm in ("list", "tuple", "set") else UND
        if nm in self.KEEP:
            if a0.k == "num":
                return a0 if nm in self.VIEW else self.new(self.num(a0).but(blank=self.num(a0).blank))
            if a0.k == "seq":
                if nm == "reversed" and a0.a is not None:
                    return V("seq", tuple(a0.a[::-1]))
                if nm in ("list", "tuple", "reversed", "sorted"):
                    return a0
                its = list(a0.a) if a0.a is not None else [a0.b]
                if its and all(x is not None and x.k in ("pop",) for x in its):
                    return self.merge(its)
                if its and all(x is not None and x.k == "seq" for x in its):
                    return self.ext(nm, V("seq", None, self.joinall([y for x in its for y in (x.a if x.a is not None else [x.b]) if y is not None])), args, kws, node, path)
                return self.new(self.num(a0)) if all(x is not None and x.k in ("num", "const") for x in its) else UND
            if a0.k in ("pop", "user", "mask"):
                if nm in ("copy", "deepcopy") and a0.k == "pop":
                    x = self.popX(a0)
                    return self.newpop(self.new(self.num(x)) if x is not None else None)
                return a0
            if a0.k == "const":
                return a0 if nm == "float" else self.new(self.num(a0)) if isinstance(a0.a, (int, float)) else a0
            if a0.k == "obj" and nm in ("deepcopy", "copy"):
                return a0
            return UND
        if nm in self.JOINS:
            vs = list(args) if nm in ("append", "insert") else [a0]
            flat = []
            for v in vs:
                flat += (list(v.a) if v.a is not None else [v.b]) if v.k == "seq" else [v]
            flat = [v for v in flat if v is not None]
            flat = [w for v in flat for w in ((list(v.a) if v.a is not None else [v.b]) if v.k == "seq" else [v]) if w is not None]
            if flat and all(v.k == "pop" for v in flat):
                return self.merge(flat)
            if flat and all(v.k in ("num", "const") for v in flat):
                return self.new(self.num(V("seq", tuple(flat))))
            return UND
        if nm in self.BLANK:
            fill = args[1] if nm == "full" and len(args) > 1 else kws.get("fill_value")
            n = self.const(1.0 if nm.startswith("ones") else 0.0) if fill is None else self.num(fill) if fill.k in ("num", "const") else self.und()
            return self.new(N(form=n.form, lo=n.lo, hi=n.hi, off=n.off, und=n.und, ident=self.id(), blank=not n.good))
        if nm in self.BIN and len(args) >= 2:
            return self.binop(self.BIN[nm](), args[0], args[1], node)
        if nm == "negative":
            return self.new(self.arith(ast.Sub(), self.const(0), self.num(a0), node))
        if nm in self.CMP and len(args) >= 2:
            return self.compared(self.CMP[nm](), args[0], args[1])
        if nm in ("minimum", "fmin", "maximum", "fmax") and len(args) >= 2:
            return self.minmax(args[0], args[1], nm in ("minimum", "fmin"), node)
        if nm in ("min", "max", "amin", "amax", "nanmin", "nanmax", "mean", "median", "nanmean"):
            if path.startswith("builtins"):
                vs = args if len(args) > 1 else (list(a0.a) if a0.k == "seq" and a0.a else None)
                if vs is None:
                    return self.reduce(a0, (), kws, node) if a0.k == "num" else self.item(a0, "min") if a0.k == "seq" else UND
                r = vs[0]
                for v in vs[1:]:
                    r = self.minmax(r, v, nm == "min", node)
                return r
            if a0.k == "seq":
                a0 = self.new(self.num(a0))
            return self.reduce(a0, args[1:], kws, node) if a0.k == "num" else UND
        if nm == "clip":
            return self.clip(self.asnum(a0) if a0.k != "und" else self.new(self.und()), args[1:], kws, node)
        if nm == "where":
            if len(args) == 3:
                m = self.tomask(args[0])
                a, b = (self.num(self.asnum(x)) if x.k != "und" else self.und() for x in args[1:])
                a, b = self.refined(a, m.b), self.refined(b, m.a)
                r = self.joinN(a, b)
                if not r.good and a.ident != b.ident:
                    via = {}
                    for x, y in ((a, b), (b, a)):
                        bits = {k for k in ("lo", "hi") if getattr(y, k)}
                        via.update({i: k & bits for i, k in (x.via or {}).items()})
                        via[x.ident] = bits
                    r = r.but(via=via)
                return self.new(r)
            return V("mask", a0.a, a0.b, "elem") if a0.k == "mask" else V("mask", frozenset(), frozenset(), "elem")
        if nm in ("flatnonzero", "nonzero", "argwhere"):
            return self.tomask(a0)
        if nm in ("logical_or", "logical_and", "bitwise_or", "bitwise_and") and len(args) >= 2:
            x, y = self.tomask(args[0]), self.tomask(args[1])
            return V("mask", x.a | y.a, x.b & y.b, "elem") if nm.endswith("or") else V("mask", x.a & y.a, x.b | y.b, "elem")
        if nm in ("logical_not", "invert"):
            m = self.tomask(a0)
            return V("mask", m.b, m.a, "elem")
        if nm in ("any", "all"):
            m = self.tomask(a0)
            return V("mask", m.a if nm == "any" else frozenset(), m.b if nm == "all" else frozenset(), nm)
        if nm == "argsort" and a0.k == "num" and self.num(a0).rows is not None and self.axis0(args[1:], kws):
            return self.places(self.num(a0).rows)
        if nm == "arange" and len(args) == 1 and not kws and self.rowsof(a0) is not None:
            return self.places(self.rowsof(a0))
        if nm in ("argsort", "argmin", "argmax", "lexsort"):
            return self.new(self.und())
        if nm == "len" and a0.k == "num" and self.num(a0).rows is not None:
            return self.new(N(form={None: self.num(a0).rows}, ident=self.id()))
        if nm in ("count_nonzero", "len") or nm == "sum" and a0.k == "mask":
            return V("count", a0.a) if a0.k == "mask" else self.fresh(0.0)
        if nm in ("isnan", "isinf", "isfinite", "isin", "isclose", "equal", "not_equal"):
            return V("mask", frozenset(), frozenset(), "elem")
        if nm in ("abs", "absolute", "fabs"):
            n = self.num(a0)
            if self.ranged(n):
                lo, hi = self.interval(self.poly(n))
                return self.fresh(0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
            return self.fresh(0.0)
        if nm == "sqrt":
            n = self.num(a0)
            c = pconst(self.poly(n)) if self.ranged(n) else None
            if c is not None and c >= 0:
                return V("const", c ** 0.5)
            if self.ranged(n):
                lo, hi = self.interval(self.poly(n))
                return self.fresh(max(lo, 0.0) ** 0.5, hi ** 0.5 if 0 <= hi < INF else INF)
            return self.fresh(0.0)
        if nm in ("putmask", "place") and len(args) >= 3 and a0.k == "num":
            self.store(a0, self.tomask(args[1]), args[2], node)
            return NONE
        if nm == "copyto" and len(args) >= 2 and a0.k == "num":
            w = kws.get("where")
            self.store(a0, w if w is not None else V("slice", True), args[1], node)
            return NONE
        if nm == "range":
            if all(x.k == "const" and isinstance(x.a, int) for x in args) and len(range(*[x.a for x in args])) <= 3:
                return V("seq", tuple(V("const", i) for i in range(*[x.a for x in args])))
            return V("range")
        if nm == "enumerate":
            return V("enum", a0)
        if nm == "zip":
            return V("zip", tuple(args))
        if nm == "isinstance":
            if len(args) > 1 and args[1].k == "cls" and args[1].a.name in ("Population", "Individual"):
                if a0.k == "num":
                    return FALSE
                return UND
            if len(args) > 1 and args[1].k == "ext" and args[1].a.endswith("ndarray") and a0.k == "num":
                return TRUE
            return UND
        if nm == "callable":
            return TRUE if a0.k in ("func", "lambda", "any") else FALSE if a0.k in ("const", "num") else UND
        if nm == "next":
            return self.item(a0, "next")
        if nm in ("errstate", "seterr"):
            return UND
        if nm in self.NUMERIC or path.startswith(("math.", "scipy.", "numpy.linalg")):
            vs = [self.num(x) for x in args if x.k in ("num", "const", "seq")]
            if nm == "exp":
                return self.fresh(0.0)
            return self.fresh() if not any(n.und for n in vs) else self.new(self.und())
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        return UND
