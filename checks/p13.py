"""P13 - algorithms can be copied, pickled and resumed at any iteration."""
import ast
from sa.model import *
from sa.util import *

EXPLANATION = (
    "Every store into an instance attribute of the package (direct, through a container held by the attribute, by setattr, on a freshly built object, or by handing the value to a constructor that keeps it) is an obligation: "
    "the value must not be something that copy and pickle refuse - a lambda, a function or class defined inside a function, a generator, a view of a dictionary, an open file, a lock, an imported module, a pool handed in from outside, "
    "a module-level function hidden behind a decorator that does not keep its name, an instance of a class created at run time - unless the class drops it in __getstate__ or the attribute is emptied before the method ends. "
    "Keys dropped by a __getstate__ must be rebuilt by __setstate__ or on first use; state hooks must return or keep a state; subclasses of numpy arrays with attributes of their own must carry them through __reduce__; "
    "__getattr__ must not recurse on a blank object; classes with required constructor arguments in __new__ must say how to rebuild; custom copies must cover every attribute, and a hook that runs while a copy or checkpoint is made must not change the state of the object it is called on."
)
ASSUMPTIONS = ["objects handed in by the user (problems, callbacks, functions) can be serialised themselves", "drawing classes (pymoo.visualization) and exceptions are not part of a run's state"]

BAD_CALLS = {
    "open": "an open file", "io.open": "an open file", "threading.Lock": "a lock", "threading.RLock": "a lock", "threading.Condition": "a lock", "threading.Event": "a lock", "threading.Semaphore": "a lock",
    "threading.Thread": "a thread", "threading.local": "thread-local data", "multiprocessing.Pool": "a pool", "multiprocessing.pool.Pool": "a pool", "multiprocessing.pool.ThreadPool": "a pool",
    "multiprocessing.Lock": "a lock", "multiprocessing.Queue": "a queue", "queue.Queue": "a queue", "concurrent.futures.ThreadPoolExecutor": "a pool", "concurrent.futures.ProcessPoolExecutor": "a pool",
    "subprocess.Popen": "a process", "socket.socket": "a socket", "weakref.ref": "a weak reference", "weakref.proxy": "a weak reference", "types.MappingProxyType": "a view of a dictionary", "memoryview": "a memory view",
    "importlib.import_module": "a module", "sys._getframe": "a frame", "inspect.currentframe": "a frame", "functools.lru_cache": "a cached function", "functools.cache": "a cached function",
    "tempfile.TemporaryFile": "an open file", "tempfile.NamedTemporaryFile": "an open file", "gzip.open": "an open file", "csv.writer": "a writer", "csv.DictWriter": "a writer",
}
KEEPERS = {"functools.partial", "collections.defaultdict", "numpy.vectorize", "list", "tuple", "set", "dict", "sorted", "reversed", "map", "filter", "zip", "enumerate", "iter", "copy.copy", "copy.deepcopy", "collections.OrderedDict", "collections.deque", "numpy.array", "types.SimpleNamespace"}
STATE_HOOKS = ("__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__")
NOT_STATE = ("pymoo.visualization", "pymoo.docs")


def run(repo, rep):
    rep.rule("unserialisable-state", "an attribute of an instance holds something that cannot be copied or pickled")
    rep.rule("state-not-restored", "an attribute that __getstate__ drops is not there again after restoring")
    rep.rule("state-damaged", "copying or pickling an object changes the object itself, which is still in use")
    rep.rule("state-hook-without-state", "__getstate__ hands out nothing, so restoring gives an empty object")
    rep.rule("attributes-lost", "attributes of a subclass of a built-in container do not survive pickling")
    rep.rule("attribute-lookup-recursion", "__getattr__ recurses without end on an object that has no attributes yet, as copy and pickle create it")
    rep.rule("rebuilt-without-arguments", "copy and pickle create the object without the arguments that __new__ requires")
    rep.rule("copy-misses-state", "a custom copy returns the object itself or leaves attributes out")
    s = Serial(repo, rep)
    for f in sorted(repo.funcs.values(), key=lambda f: f.id):
        if not f.module.name.startswith(NOT_STATE):
            rep.count("functions_searched")
            s.stores(f)
    for c in sorted(repo.classes.values(), key=lambda c: c.id):
        if not c.module.name.startswith(NOT_STATE):
            rep.count("classes")
            hooks(repo, rep, c, s)
    if not getattr(repo, "mini", False):
        for k, m in [("functions_searched", 1000), ("classes", 250), ("attribute_stores", 1000), ("state_hooks", 4)]:
            rep.floor(k, m)


class Serial:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.memo = {}
        self.kept_memo = {}
        self.unnamed = {}
        for f in repo.funcs.values():
            if f.parent is None and f.cls is None and not isinstance(f.node, ast.Lambda):
                for d in f.node.decorator_list:
                    w = self.hides(d, f)
                    if w:
                        self.unnamed[f] = w

    def hides(self, d, f):
        """the decorator that replaces the function by an inner one under another name"""
        fn = d.func if isinstance(d, ast.Call) else d
        r = self.repo.resolve(fn, f.module, f.parent)
        if not isinstance(r, Func):
            return None
        for g in self.inner(r):
            wraps = any((dotted(x.func if isinstance(x, ast.Call) else x) or "").split(".")[-1] in ("wraps", "update_wrapper") for x in g.node.decorator_list) if not isinstance(g.node, ast.Lambda) else False
            if wraps:
                return None
        if any((dotted(n.func) or "").split(".")[-1] in ("wraps", "update_wrapper", "setattr") or isinstance(n.func, ast.Name) and n.func.id == "setattr"
               for h in [r] + self.inner(r) for n in h.walk() if isinstance(n, ast.Call)):
            return None
        if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ("__name__", "__qualname__") for h in [r] + self.inner(r) for n in h.walk()):
            return None
        names = {g.name for g in self.inner(r)}
        for h in [r] + self.inner(r):
            for n in h.walk():
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in names:
                    return r
        return None

    def inner(self, f):
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            for h in self.repo.funcs.values():
                if h.parent is g and not isinstance(h.node, ast.Lambda):
                    out.append(h)
                    todo.append(h)
        return out

    # ------------------------------------------------------------ values
    def bad(self, e, f, depth=0):
        """why the value of e cannot be serialised, or None"""
        if e is None or depth > 8:
            return None
        if isinstance(e, ast.Lambda):
            return "a lambda"
        if isinstance(e, ast.GeneratorExp):
            return "a generator"
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return self.first([x.value if isinstance(x, ast.Starred) else x for x in e.elts], f, depth)
        if isinstance(e, ast.Dict):
            return self.first(e.values, f, depth)
        if isinstance(e, (ast.ListComp, ast.SetComp)):
            return self.bad(e.elt, f, depth + 1)
        if isinstance(e, ast.DictComp):
            return self.bad(e.value, f, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.first([e.body, e.orelse], f, depth)
        if isinstance(e, ast.BoolOp):
            return self.first(e.values, f, depth)
        if isinstance(e, ast.BinOp):
            return self.first([e.left, e.right], f, depth) if isinstance(e.op, (ast.Add, ast.BitOr)) else None
        if isinstance(e, (ast.NamedExpr, ast.Starred, ast.Await)):
            return self.bad(e.value, f, depth + 1)
        if isinstance(e, ast.Name):
            return self.name(e, f, depth)
        if isinstance(e, ast.Attribute):
            r = self.repo.resolve(e, f.module, f)
            return self.thing(r, e, f, depth)
        if isinstance(e, ast.Subscript):
            # an element of a local container
            return self.bad(e.value, f, depth + 1) if isinstance(e.value, (ast.Dict, ast.List, ast.Tuple)) else None
        if isinstance(e, ast.Call):
            return self.call(e, f, depth)
        return None

    def first(self, es, f, depth):
        for x in es:
            r = self.bad(x, f, depth + 1)
            if r:
                return r
        return None

    def name(self, e, f, depth):
        g = f
        while g is not None:
            la = self.repo.local_assigns(g)
            if e.id in g.inner:
                return f"the function {e.id} defined inside {g.name}"
            if any(isinstance(n, ast.ClassDef) and n.name == e.id for n in g.walk()):
                return f"the class {e.id} defined inside {g.name}"
            if e.id in la:
                key = (g, e.id)
                if key in self.memo:
                    return self.memo[key]
                self.memo[key] = None
                self.memo[key] = self.first([v for v in la[e.id] if v is not None and not (isinstance(v, ast.Name) and v.id == e.id)], g, depth)
                return self.memo[key]
            if e.id in g.args or e.id in g.kwonly:
                d = g.defaults.get(e.id)
                return self.bad(d, g.parent or g, depth + 1) if d is not None and not isinstance(d, ast.Name) or isinstance(d, ast.Name) and d.id != e.id else None
            if e.id in (g.vararg, g.kwarg):
                return None
            g = g.parent
        return self.thing(self.repo.resolve(e, f.module, f), e, f, depth)

    def thing(self, r, e, f, depth):
        if isinstance(r, ModRef):
            return f"the module {r.name}"
        if isinstance(r, Ext):
            return f"the module {r.path}" if self.is_module(e, f, r) else None
        if isinstance(r, Func):
            if r in self.unnamed:
                return f"the function {r.name}, which the decorator {self.unnamed[r].name} hides under another name"
            return None
        if isinstance(r, Var):
            if isinstance(r.node, ast.Lambda):
                return "a lambda" if f is not None else None
            return None
        return None

    def is_module(self, e, f, r):
        """bound by a plain import statement"""
        if r.path in ("sys.stdout", "sys.stderr", "sys.stdin"):
            return True
        if not isinstance(e, ast.Name):
            return False
        scopes = []
        g = f
        while g is not None:
            scopes.append(g.walk())
            g = g.parent
        scopes.append(ast.walk(f.module.tree))
        for sc in scopes:
            for n in sc:
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if (a.asname or a.name.split(".")[0]) == e.id:
                            return True
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if (a.asname or a.name) == e.id:
                            return False
        return False

    def call(self, e, f, depth):
        r = self.repo.resolve(e.func, f.module, f)
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        if isinstance(r, Ext):
            path = r.path[9:] if r.path.startswith("builtins.") else r.path
            if path in BAD_CALLS:
                return BAD_CALLS[path]
            if r.path in KEEPERS:
                return self.first(args, f, depth)
            return None
        if isinstance(e.func, ast.Name) and e.func.id in BAD_CALLS and r is None:
            return BAD_CALLS[e.func.id]
        if isinstance(e.func, ast.Name) and e.func.id in KEEPERS and not isinstance(r, (Func, Class)):
            return self.first(args, f, depth)
        if isinstance(e.func, ast.Call):
            h = self.repo.resolve(e.func.func, f.module, f)
            if isinstance(h, Ext) and h.path in BAD_CALLS:
                return BAD_CALLS[h.path]
        if isinstance(r, Class):
            if self.in_function(r):
                return f"an instance of the class {r.name}, which is defined inside a function"
            return self.kept(e, r, f, depth)
        targets = [r] if isinstance(r, Func) else []
        if not targets and isinstance(e.func, ast.Attribute):
            if e.func.attr in ("keys", "values", "items") and not e.args and not e.keywords and not self.repo.resolve_call(e, f, fallback=False):
                return "a view of a dictionary"
            targets = [t for t in self.repo.resolve_call(e, f, fallback=False) if isinstance(t, Func)]
            if len(targets) > 12:
                targets = []
        if not targets and isinstance(e.func, ast.Name):
            g = f
            while g is not None and not targets:
                if e.func.id in g.inner:
                    targets = [g.inner[e.func.id]]
                g = g.parent
        for t in targets:
            x = self.returned(t, depth)
            if x:
                return x
        return None

    def returned(self, t, depth):
        key = ("ret", t)
        if key not in self.memo:
            self.memo[key] = None
            if isinstance(t.node, ast.Lambda):
                self.memo[key] = self.bad(t.node.body, t, depth + 1)
            elif any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in t.walk()):
                if "contextmanager" not in " ".join(t.decorator_names()):
                    self.memo[key] = "a generator"
            elif t not in self.unnamed:
                for n in t.walk():
                    if isinstance(n, ast.Return) and n.value is not None:
                        x = self.bad(n.value, t, depth + 1)
                        if x:
                            self.memo[key] = x
        return self.memo[key]

    def in_function(self, c):
        for f in self.repo.funcs.values():
            if f.module is c.module and any(n is c.node for n in f.walk()):
                return True
        return False

    def kept(self, e, c, f, depth):
        """an argument that cannot be serialised and that the constructor keeps"""
        i = c.lookup("__init__")
        if i is None:
            return None
        keeps = self.keeps(i)
        if not keeps:
            return None
        try:
            b = bind_args(e, i, True)[0]
        except Exception:
            return None
        for p, v in (b or {}).items():
            if p in keeps and isinstance(v, ast.AST) and not self.dropped_everywhere(keeps[p], i):
                x = self.bad(v, f, depth + 1)
                if x:
                    return f"an instance of {c.name} that keeps {x}"
        return None

    def keeps(self, i):
        """parameter -> attribute"""
        if i not in self.kept_memo:
            out = {}
            self.kept_memo[i] = out
            for n in i.walk():
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == i.selfname:
                    if isinstance(n.value, ast.Name) and n.value.id in i.all_params:
                        out[n.value.id] = n.targets[0].attr
        return self.kept_memo[i]

    # ------------------------------------------------------------ stores
    def stores(self, f):
        repo = self.repo
        sn = repo.self_name(f)
        cls = repo.enclosing_class(f)
        for n in f.walk():
            for t, v in self.pairs(n):
                base = t
                while isinstance(base, ast.Subscript):
                    base = base.value
                if not isinstance(base, ast.Attribute):
                    continue
                own = isinstance(base.value, ast.Name) and base.value.id == sn and cls is not None
                if not own and not (isinstance(base.value, ast.Name) and self.local_instance(base.value, f)):
                    continue
                self.obligation(f, cls if own else None, base, v, n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "insert", "extend", "update", "setdefault", "appendleft"):
                b = n.func.value
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == sn and cls is not None and not repo.resolve_call(n, f, fallback=False):
                    for v in [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]:
                        self.obligation(f, cls, b, v, n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                b = n.args[0]
                if isinstance(b, ast.Name) and b.id == sn and cls is not None:
                    nm = n.args[1].value if isinstance(n.args[1], ast.Constant) else unparse(n.args[1])
                    self.obligation(f, cls, ast.copy_location(ast.Attribute(b, str(nm), ast.Store()), b), n.args[2], n)

    @staticmethod
    def pairs(n):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
                        yield from zip(t.elts, n.value.elts)
                else:
                    yield t, n.value
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None:
            yield n.target, n.value

    def local_instance(self, nm, f):
        """a local variable bound to a new instance of a class of the package that leaves the function"""
        vs = self.repo.local_assigns(f).get(nm.id)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in f.walk()) or not self.escapes(nm.id, f):
            return False
        return bool(vs) and any(isinstance(v, ast.Call) and isinstance(self.repo.resolve(v.func, f.module, f), Class) for v in vs if v is not None)

    def escapes(self, nm, f):
        for n in f.walk():
            v = n.value if isinstance(n, ast.Return) else n.value if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) else None
            if v is not None and any(isinstance(x, ast.Name) and x.id == nm for x in ([v] + (v.elts if isinstance(v, (ast.Tuple, ast.List)) else []))):
                return True
        return False

    def obligation(self, f, cls, attr, v, node):
        rep = self.rep
        rep.count("attribute_stores")
        why = self.bad(v, f)
        if cls is not None and attr.attr == "__class__":
            why = self.dynamic(v, f)
            if why:
                live = [k for k in self.repo.contexts(f) if not self.hooked(k)]
                if live or not self.repo.contexts(f):
                    rep.add("unserialisable-state", f"{cls.id}.__class__", f"{f.module.rel}:{node.lineno} {f.qual}", f"the class of the object becomes {why}, which pickle cannot find by name")
            return
        if why is None and cls is not None:
            why = self.handle(attr, v, f, cls)
        if why is None:
            return
        if cls is not None:
            live = [k for k in self.repo.contexts(f) if not self.drops(k, attr.attr)]
            if not live:
                rep.count("dropped_on_serialisation")
                return
        if self.emptied(f, attr):
            return
        name = cls.id if cls is not None else f.id
        rep.add("unserialisable-state", f"{name}.{attr.attr}", f"{f.module.rel}:{node.lineno} {f.qual}", f"the attribute {attr.attr} holds {why}: the object cannot be copied or pickled")

    def dynamic(self, v, f):
        if isinstance(v, ast.Call):
            r = self.repo.resolve(v.func, f.module, f)
            if isinstance(v.func, ast.Name) and v.func.id == "type" and len(v.args) == 3 or isinstance(r, Ext) and r.path == "types.new_class":
                return "a class created at run time"
            if isinstance(r, Func):
                for n in r.walk():
                    if isinstance(n, ast.Return) and n.value is not None:
                        x = self.dynamic(n.value, r)
                        if x:
                            return x
        if isinstance(v, ast.Name):
            for w in self.repo.local_assigns(f).get(v.id, []):
                if w is not None and not isinstance(w, ast.Name):
                    x = self.dynamic(w, f)
                    if x:
                        return x
            if any(isinstance(n, ast.ClassDef) and n.name == v.id for n in f.walk()):
                return "a class defined inside a function"
        return None

    def hooked(self, k):
        return any(k.lookup(h) is not None for h in STATE_HOOKS)

    def handle(self, attr, v, f, cls):
        """a pool or client handed to a back-end for parallel evaluation"""
        if f.name != "__init__" or not isinstance(v, ast.Name) or v.id not in f.all_params or not f.module.name.startswith(PKG + ".parallelization"):
            return None
        call = cls.lookup("__call__")
        if call is None:
            return None
        ps = call.params
        for n in call.walk():
            if isinstance(n, ast.Call):
                b = n.func.value if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id == call.selfname) else n.func
                if isinstance(b, ast.Attribute) and b.attr == attr.attr and isinstance(b.value, ast.Name) and b.value.id == call.selfname:
                    if any(isinstance(x, ast.Name) and ps and x.id == ps[0] for a in n.args for x in ast.walk(a)):
                        return "a handle of a pool"
        return None

    def emptied(self, f, attr):
        """the attribute is set to a constant at the end of the same function, on the way out"""
        if isinstance(f.node, ast.Lambda) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in f.walk()):
            return False
        for st in reversed(f.body):
            for x in ([st] if not isinstance(st, ast.Try) else st.finalbody):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and any(unparse(t) == unparse(attr) for t in x.targets):
                    return True
                if isinstance(x, ast.Delete) and any(unparse(t) == unparse(attr) for t in x.targets):
                    return True
        return False

    # ------------------------------------------------------------ __getstate__
    def drops(self, k, key):
        g = k.lookup("__getstate__")
        return g is not None and key in self.mentioned(g) or k.lookup("__reduce__") is not None and key not in self.mentioned(k.lookup("__reduce__")) and False

    def dropped_everywhere(self, key, i):
        return all(self.drops(k, key) for k in self.repo.contexts(i) if k is not None)

    def mentioned(self, g):
        key = ("ment", g)
        if key not in self.memo:
            out = set()
            self.memo[key] = out
            todo, seen = [g], set()
            while todo:
                h = todo.pop()
                if h in seen:
                    continue
                seen.add(h)
                for n in h.walk():
                    if isinstance(n, ast.Constant) and isinstance(n.value, str):
                        out.add(n.value)
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        r = self.repo.resolve(n, h.module, h)
                        if isinstance(r, Var) and r.node is not None:
                            out |= {c.value for c in ast.walk(r.node) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                        if isinstance(n, ast.Attribute):
                            c = self.repo.enclosing_class(h)
                            v = c.lookup_attr(n.attr) if c is not None else None
                            if isinstance(v, ast.AST):
                                out |= {x.value for x in ast.walk(v) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                    if isinstance(n, ast.Call):
                        for t in self.repo.resolve_call(n, h, fallback=False):
                            if isinstance(t, Func) and len(seen) < 8:
                                todo.append(t)
        return self.memo[key]


# ------------------------------------------------------------------ hooks of a class
def attributes(repo, c):
    return {a for a in repo.attr_assigns(c)}


def hooks(repo, rep, c, s):
    g = c.methods.get("__getstate__")
    for name in ("__getstate__",) + STATE_HOOKS + ("__deepcopy__", "__copy__"):
        h = c.methods.get(name)
        for n in damages(repo, h) if h is not None else ():
            rep.add("state-damaged", f"{c.id}.{name}", f"{h.module.rel}:{n.lineno} {h.qual}", f"`{unparse(n)}` changes the object that is copied or pickled, and it is still in use afterwards")
    if g is not None:
        rep.count("state_hooks")
        rets = [n for n in g.walk() if isinstance(n, ast.Return)]
        yields = [n for n in rets if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
        if not yields and not any(isinstance(n, ast.Raise) for n in g.walk()):
            rep.add("state-hook-without-state", c.id, g.loc, "__getstate__ returns nothing: a copy or a restored object has no attributes")
        else:
            for key in sorted(s.mentioned(g)):
                if key in attributes(repo, c) and not restored(repo, c, key, g):
                    rep.add("state-not-restored", f"{c.id}.{key}", g.loc, f"__getstate__ drops the attribute {key}, and nothing brings it back after restoring")
    if c.methods.get("__setstate__") is not None:
        rep.count("state_hooks")
        h = c.methods["__setstate__"]
        ps = h.params
        if ps and not any(isinstance(n, ast.Name) and n.id == ps[0] and isinstance(n.ctx, ast.Load) for n in h.walk()):
            rep.add("state-hook-without-state", c.id + ".__setstate__", h.loc, "__setstate__ ignores the state it is given")
        whole(repo, rep, c, h)
    for m in c.methods.values():
        for n in m.walk():
            v = n.value if isinstance(n, ast.keyword) and n.arg == "exclude_from_serialization" else n.value if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "exclude_from_serialization" for t in n.targets) else None
            for x in ast.walk(v) if v is not None else ():
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in attributes(repo, c) and not restored(repo, c, x.value, m):
                    rep.add("state-not-restored", f"{c.id}.{x.value}", f"{m.module.rel}:{n.lineno if hasattr(n, 'lineno') else m.lineno} {m.qual}", f"the attribute {x.value} is excluded from serialisation, and nothing brings it back after restoring")
    containers(repo, rep, c)
    lookups(repo, rep, c)
    news(repo, rep, c)
    copies(repo, rep, c)


def placed(m):
    """attribute -> [(callee, position in what it returns or None)]"""
    out = {}
    for n in m.walk():
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.Subscript)):
            v, at = n.value, None
            if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Call) and isinstance(v.slice, ast.Constant):
                v, at = v.value, v.slice.value
            if not isinstance(v, ast.Call):
                continue
            for t in n.targets:
                for i, e in enumerate(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == m.selfname:
                        out.setdefault(e.attr, []).append((v, i if isinstance(t, (ast.Tuple, ast.List)) else at, n))
    return out


def whole(repo, rep, c, h):
    """an attribute is one of several values a function returns: restoring it takes the same one"""
    init = {}
    for m in c.methods.values():
        if m is not h:
            for a, L in placed(m).items():
                init.setdefault(a, []).extend((m,) + x for x in L)
    for a, L in placed(h).items():
        for call, at, n in L:
            ts = [t for t in repo.resolve_call(call, h, fallback=False) if isinstance(t, Func)]
            for m, call2, at2, n2 in init.get(a, []):
                if ts and ts == [t for t in repo.resolve_call(call2, m, fallback=False) if isinstance(t, Func)] and at != at2:
                    rets = [r.value for r in ts[0].walk() if isinstance(r, ast.Return) and r.value is not None]
                    if isinstance(at, int) and isinstance(at2, int) and at % 1000 != at2 % 1000 and at >= 0 <= at2 or rets and all(isinstance(r, ast.Tuple) for r in rets) and (at is None or at2 is None):
                        rep.add("state-not-restored", f"{c.id}.{a}", f"{h.module.rel}:{n.lineno} {h.qual}",
                                f"`{unparse(n)}` restores {a} as something else than `{unparse(n2)}` has set: the function returns several values")


def constant(v):
    return isinstance(v, ast.Constant) or isinstance(v, (ast.List, ast.Tuple, ast.Dict)) and not list(ast.iter_child_nodes(v))[0:0] and not getattr(v, "elts", getattr(v, "keys", None))


def restored(repo, c, key, g):
    """is the attribute rebuilt by __setstate__, or on first use whenever it is missing?"""
    h = c.lookup("__setstate__")
    for f in [h] if h is not None else []:
        for n in [x for t in reach(repo, f) for x in t.walk()]:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value == key and not constant(n.args[2]):
                return True
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Attribute) and e.attr == key for e in t.elts) for t in n.targets):
                return True
            for t, v in Serial.pairs(n):
                if isinstance(t, ast.Attribute) and t.attr == key and not constant(v) and (not popped(g, key) or isinstance(t.value, ast.Name) and t.value.id == repo.self_name(h)):
                    return True
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == key and not constant(v):
                    return True
    reads = [(m, n) for k in sorted(c.family(), key=lambda k: k.id) for m in methods(repo, k) if m is not g and m.name not in ("__getstate__", "__setstate__") for n in m.walk()
             if isinstance(n, ast.Attribute) and n.attr == key and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == repo.self_name(m)]
    if not reads:
        return True
    return all(lazily(repo, m, n, key) for m, n in reads)


def popped(g, key):
    """the key is taken out of the state, not set to nothing"""
    for n in g.walk():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == key:
            return True
        if isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == key for t in n.targets):
            return True
    return False


def damages(repo, g):
    """statements of a hook that change the object that is copied or pickled, which goes on living"""
    me = repo.self_name(g)
    own = set()

    def is_state(e):
        if isinstance(e, ast.Attribute) and e.attr == "__dict__" and isinstance(e.value, ast.Name) and e.value.id == me:
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "vars" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == me:
            return True
        return isinstance(e, ast.Name) and e.id in own
    for n in g.walk():
        if isinstance(n, ast.Assign) and is_state(n.value):
            own |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    # a name that is replaced by a copy in between is not judged
    for n in g.walk():
        if isinstance(n, ast.Assign) and not is_state(n.value):
            own -= {t.id for t in n.targets if isinstance(t, ast.Name)}
    back = {t.attr for n in g.walk() if isinstance(n, ast.Try) for s in n.finalbody for x in ast.walk(s) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Attribute)}
    for n in g.walk():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "update", "clear", "popitem", "setdefault", "__setitem__", "__delitem__") and is_state(n.func.value):
            yield n
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in n.targets if not isinstance(n, ast.AugAssign) else [n.target]:
                if isinstance(t, ast.Subscript) and is_state(t.value) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and t.attr not in back:
                    yield n


def reach(repo, f):
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in out or len(out) > 12:
            continue
        out.append(g)
        for n in g.walk():
            if isinstance(n, ast.Call):
                todo += [t for t in repo.resolve_call(n, g, fallback=False) if isinstance(t, Func) and t.cls is not None]
    return out


def methods(repo, k):
    out = []
    for c in k.mro:
        if isinstance(c, Class):
            out += list(c.methods.values())
    return out


def lazily(repo, m, read, key):
    """the method fills the attribute when it is missing before it reads it"""
    for n in m.walk():
        if isinstance(n, ast.If):
            t = unparse(n.test, 400)
            if f"'{key}'" in t or f".{key} is None" in t or f"not self.{key}" in t:
                refills = any(isinstance(a, ast.Attribute) and a.attr == key and isinstance(a.ctx, ast.Store) for b in n.body for a in ast.walk(b))
                if refills and (n.lineno <= read.lineno or any(x is read for x in ast.walk(n.test))):
                    return True
    return False


BUILTIN_CONTAINERS = {"numpy.ndarray", "ndarray"}


def containers(repo, rep, c):
    if not any(isinstance(b, Ext) and b.path in BUILTIN_CONTAINERS for b in c.mro):
        return
    rep.count("array_subclasses")
    own = sorted({a for a in attributes(repo, c)} | finalized(c))
    if own and c.lookup("__reduce__") is None and c.lookup("__reduce_ex__") is None:
        rep.add("attributes-lost", c.id, c.loc, f"pickling an array keeps none of the attributes of a subclass ({', '.join(own[:4])}), and {c.name} has no __reduce__")
    elif own and c.lookup("__setstate__") is None:
        rep.add("attributes-lost", c.id, c.loc, f"{c.name} has __reduce__ but no __setstate__ for its attributes ({', '.join(own[:4])})")
    elif own:
        r = c.lookup("__reduce__") or c.lookup("__reduce_ex__")
        for h in (r, c.lookup("__setstate__")):
            text = {n.attr for n in h.walk() if isinstance(n, ast.Attribute)} | {n.value for n in h.walk() if isinstance(n, ast.Constant) and isinstance(n.value, str)} | {n.id for n in h.walk() if isinstance(n, ast.Name)}
            if not ({"__dict__", "vars"} & text):
                for a in own:
                    if a not in text:
                        rep.add("attributes-lost", f"{c.id}.{a}", h.loc, f"{h.name} does not carry the attribute {a}")


def finalized(c):
    """attributes that __new__ and __array_finalize__ give to the new object"""
    out = set()
    for k in c.mro:
        if isinstance(k, Class):
            for nm in ("__new__", "__array_finalize__"):
                m = k.methods.get(nm)
                if m is not None:
                    out |= {n.attr for n in m.walk() if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
    return out


def lookups(repo, rep, c):
    m = c.methods.get("__getattr__")
    if m is None:
        return
    rep.count("attribute_hooks")
    sn = m.selfname
    known = {"__dict__", "__class__"} | {a for k in c.mro if isinstance(k, Class) for a in list(k.methods) + list(k.class_attrs)}
    first = None
    for st in m.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn and n.attr not in known and isinstance(n.ctx, ast.Load):
                first = first or (n, st)
    if first is None:
        return
    n, st = first
    for b in m.body:
        if b is st and not isinstance(st, ast.If):
            break
        if isinstance(b, ast.If) and any(isinstance(x, (ast.Raise, ast.Return)) for x in b.body) and not any(x is n for x in ast.walk(b.test)):
            return
    rep.add("attribute-lookup-recursion", c.id, m.loc, f"__getattr__ reads self.{n.attr}, which a blank object does not have: it calls itself without end")


def news(repo, rep, c):
    m = c.methods.get("__new__")
    if m is None or any(c.lookup(h) is not None for h in STATE_HOOKS):
        return
    if any(isinstance(b, Ext) and b.path in BUILTIN_CONTAINERS for b in c.mro):
        return
    rep.count("own_new")
    if not any(isinstance(n, ast.Attribute) and n.attr == "__new__" for n in m.walk()):
        return          # it hands out some other object: there are no instances
    need = [a for a in m.args[1:] if a not in m.defaults]
    if need:
        rep.add("rebuilt-without-arguments", c.id, m.loc, f"__new__ requires {', '.join(need)}, but copy and pickle call it without arguments")


def copies(repo, rep, c):
    for nm in ("__deepcopy__", "__copy__", "__reduce__", "__reduce_ex__"):
        m = c.methods.get(nm)
        if m is None or any(isinstance(b, Ext) and b.path in BUILTIN_CONTAINERS for b in c.mro):
            continue
        rep.count("custom_copies")
        sn = m.selfname
        if any(isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == sn for n in m.walk()):
            if attributes(repo, c):
                rep.add("copy-misses-state", f"{c.id}.{nm}", m.loc, "the copy is the object itself")
            continue
        text = {n.attr for n in m.walk() if isinstance(n, ast.Attribute)} | {n.value for n in m.walk() if isinstance(n, ast.Constant) and isinstance(n.value, str)} | {n.id for n in m.walk() if isinstance(n, ast.Name)}
        if {"__dict__", "vars", "__getstate__", "__reduce_ex__", "__reduce__"} & text - {nm}:
            continue
        helpers = [t for n in m.walk() if isinstance(n, ast.Call) for t in repo.resolve_call(n, m, fallback=False) if isinstance(t, Func) and t.name != "__init__"]
        text |= {n.attr for t in helpers for n in t.walk() if isinstance(n, ast.Attribute)}
        if "__dict__" in text:
            continue
        for a in sorted(attributes(repo, c)):
            if a not in text and not any(a == p for p in text):
                rep.add("copy-misses-state", f"{c.id}.{nm}.{a}", m.loc, f"the copy does not carry the attribute {a}")


SELFTESTS = [
    ("unserialisable", {"pymoo/__init__.py": "", "pymoo/a.py": """
        import json
        import functools
        import threading

        def quiet(f):
            @functools.wraps(f)
            def w(*a):
                return f(*a)
            return w

        def loud(f):
            def w(*a):
                return f(*a)
            return w

        @quiet
        def good(x):
            return x

        @loud
        def hidden(x):
            return x

        class A:
            def __init__(self, func=good, other=hidden):
                self.func = func
                self.other = other
                self.items = []
                self.lock = threading.Lock()
                self.mod = json
                self.fine = functools.partial(good, 1)
                self.rows = self._rows()
                self.names = {"a": 1}.keys()
                self.sure = list({"a": 1}.keys())
                self.ok = 1

            def _rows(self):
                yield 1

            def work(self):
                self.items.append(lambda x: x)
                self.tmp = lambda x: x
                self.ok = self.tmp(2)
                self.tmp = None

            def make(self):
                def inner():
                    return 1
                return inner

            def keep(self):
                f = self.make()
                self.f = f

        class B:
            def __init__(self):
                self.gen = (i for i in [1])
                self.x = 3

            def __getstate__(self):
                d = dict(self.__dict__)
                del d["gen"]
                return d

            def __setstate__(self, d):
                self.__dict__.update(d)
                self.gen = iter([self.x])

            def use(self):
                return next(self.gen)

        class C:
            def __init__(self):
                self.cache = {}
                self.seen = {}

            def __getstate__(self):
                d = dict(self.__dict__)
                d.pop("cache")
                d.pop("seen")
                return d

            def use(self):
                if not hasattr(self, "cache") or self.cache is None:
                    self.cache = {}
                return self.cache, self.seen
        """}, [("unserialisable-state", "pymoo.a:A.other"), ("unserialisable-state", "pymoo.a:A.lock"), ("unserialisable-state", "pymoo.a:A.mod"), ("unserialisable-state", "pymoo.a:A.rows"),
               ("unserialisable-state", "pymoo.a:A.names"), ("unserialisable-state", "pymoo.a:A.items"), ("unserialisable-state", "pymoo.a:A.f"), ("state-not-restored", "pymoo.a:C.seen")]),
    ("hooks", {"pymoo/__init__.py": "", "pymoo/a.py": """
        import numpy as np

        class Arr(np.ndarray):
            def __array_finalize__(self, obj):
                self.size_limit = 3

        class Kept(np.ndarray):
            def __array_finalize__(self, obj):
                self.size_limit = 3

            def __reduce__(self):
                f, a, s = super().__reduce__()
                return f, a, (s, self.__dict__)

            def __setstate__(self, s):
                super().__setstate__(s[0])
                self.__dict__.update(s[1])

        class Wrap:
            def __init__(self, obj):
                self.obj = obj

            def __getattr__(self, name):
                return getattr(self.obj, name)

        class Safe:
            def __init__(self, obj):
                self.obj = obj

            def __getattr__(self, name):
                if name.startswith("__") or name == "obj":
                    raise AttributeError(name)
                return getattr(self.obj, name)

        class New:
            def __new__(cls, a):
                return super().__new__(cls)

        class Cop:
            def __init__(self):
                self.a = 1
                self.b = 2

            def __deepcopy__(self, memo):
                c = Cop()
                c.a = self.a
                return c

        class Empty:
            def __init__(self):
                self.a = 1

            def __getstate__(self):
                self.a = None

        class Dyn:
            def __init__(self, other):
                self.__class__ = type("Dyn", (Dyn, other), {})
        """}, [("state-damaged", "pymoo.a:Empty.__getstate__"), ("attributes-lost", "pymoo.a:Arr"), ("attribute-lookup-recursion", "pymoo.a:Wrap"), ("rebuilt-without-arguments", "pymoo.a:New"), ("copy-misses-state", "pymoo.a:Cop.__deepcopy__.b"),
               ("state-hook-without-state", "pymoo.a:Empty"), ("unserialisable-state", "pymoo.a:Dyn.__class__")]),
    ("restored as something else", {"pymoo/__init__.py": "", "pymoo/a.py": """
        def load(name):
            return 1, object()

        class A:
            def __init__(self, name):
                self.name = name
                self.number, self.obj = load(name)
            def __getstate__(self):
                d = self.__dict__.copy()
                d["obj"] = None
                return d
            def __setstate__(self, d):
                self.__dict__.update(d)
                self.obj = load(self.name)
            def use(self):
                return self.obj.x

        class B:
            def __init__(self, name):
                self.name = name
                self.number, self.obj = load(name)
            def __getstate__(self):
                d = self.__dict__.copy()
                d["obj"] = None
                return d
            def __setstate__(self, d):
                self.__dict__.update(d)
                _, self.obj = load(self.name)
            def use(self):
                return self.obj.x

        class C(B):
            def __setstate__(self, d):
                self.__dict__.update(d)
                self.obj = load(self.name)[1]
        """}, [("state-not-restored", "pymoo.a:A.obj")]),
    ("state damaged", {"pymoo/__init__.py": "", "pymoo/a.py": """
        class A:
            def __init__(self, f):
                self.f, self.g = f, []
            def __getstate__(self):
                state = self.__dict__
                state["f"] = None
                return state
            def __setstate__(self, s):
                self.__dict__.update(s)
            def use(self):
                return self.f()

        class B(A):
            def __getstate__(self):
                state = self.__dict__
                state = state.copy()
                state["f"] = None
                return state

        class C(A):
            def __deepcopy__(self, memo):
                obj = self.__class__(self.f)
                obj.g = list(self.g)
                self.g = []
                return obj
        """}, [("state-damaged", "pymoo.a:A.__getstate__"), ("state-damaged", "pymoo.a:C.__deepcopy__"), ("state-not-restored", "pymoo.a:A.f"), ("state-not-restored", "pymoo.a:B.f")]),
]
