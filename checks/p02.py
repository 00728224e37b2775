"""P02 - process-wide settings are left as they were found."""
import ast
from sa.model import *
from sa.util import *
from sa.rng import is_global_random, SEEDED_CTORS

EXPLANATION = (
    "Effect inventory over every expression of pymoo/**/*.py: all calls that resolve to functions which change process-wide state (warning "
    "filters, numpy error/print settings, global random state, environment, working directory, import path, standard streams, logging, "
    "signals, matplotlib/jax configuration, multiprocessing start method, garbage collector, recursion limit, ...) and all stores to "
    "attributes or items of objects of other libraries. Each must be confined: inside a context manager that restores the same kind of "
    "state, in a try/finally whose finally writes the same state back, in paired __enter__/__exit__ methods, or in a helper that is only "
    "called from such places."
)
ASSUMPTIONS = ["external functions not in the table of state-changing functions change nothing process-wide"]

TABLE = {
    "warnings.simplefilter": "warnings", "warnings.filterwarnings": "warnings", "warnings.resetwarnings": "warnings",
    "numpy.seterr": "numpy-err", "numpy.seterrcall": "numpy-err", "numpy.setbufsize": "numpy-err", "numpy.set_printoptions": "numpy-print",
    "numpy.set_string_function": "numpy-print",
    "os.chdir": "cwd", "os.fchdir": "cwd", "os.putenv": "environ", "os.unsetenv": "environ", "os.umask": "umask", "os.nice": "nice",
    "sys.setrecursionlimit": "recursion", "sys.settrace": "trace", "sys.setprofile": "trace", "threading.settrace": "trace",
    "sys.setswitchinterval": "switch", "logging.basicConfig": "logging", "logging.disable": "logging", "logging.captureWarnings": "logging",
    "logging.setLoggerClass": "logging", "logging.addLevelName": "logging", "signal.signal": "signal", "signal.alarm": "signal",
    "signal.setitimer": "signal", "locale.setlocale": "locale", "matplotlib.use": "matplotlib-backend",
    "matplotlib.pyplot.switch_backend": "matplotlib-backend", "matplotlib.rc": "matplotlib-rc", "matplotlib.pyplot.rc": "matplotlib-rc",
    "matplotlib.rcdefaults": "matplotlib-rc", "matplotlib.pyplot.rcdefaults": "matplotlib-rc", "matplotlib.style.use": "matplotlib-rc",
    "matplotlib.pyplot.style.use": "matplotlib-rc", "matplotlib.pyplot.ion": "matplotlib-interactive",
    "matplotlib.pyplot.ioff": "matplotlib-interactive", "matplotlib.interactive": "matplotlib-interactive",
    "multiprocessing.set_start_method": "mp", "gc.disable": "gc", "gc.enable": "gc", "gc.freeze": "gc", "gc.set_threshold": "gc",
    "socket.setdefaulttimeout": "socket", "atexit.register": "atexit", "jax.config.update": "jax-config", "faulthandler.enable": "fault",
    "decimal.setcontext": "decimal", "time.tzset": "tz", "resource.setrlimit": "rlimit", "random.seed": "global-random",
    "importlib.reload": "modules", "sys.setdlopenflags": "dlopen", "threading.stack_size": "threads", "urllib.request.install_opener": "urllib",
    "builtins.setattr": None, "builtins.delattr": None, "types.MethodType": None,
    # libraries that are known to reseed numpy's global generator when constructed
    "cma.CMAEvolutionStrategy": "global-random", "cma.evolution_strategy.CMAEvolutionStrategy": "global-random", "cma.fmin": "global-random",
    "cma.fmin2": "global-random", "cma.evolution_strategy.fmin": "global-random",
}
TABLE = {k: v for k, v in TABLE.items() if v}
CALLS_OF = ("logging.getLogger", "decimal.getcontext")
MUTATORS = {"append", "insert", "extend", "remove", "pop", "clear", "update", "setdefault", "popitem", "sort", "reverse", "add", "discard",
            "setLevel", "addHandler", "removeHandler", "addFilter", "register", "unregister", "reconfigure"}
# roots of other libraries that own process-wide mutable objects (a mutator method on them is a change)
OWNERS = ("os.environ", "sys.", "warnings.", "matplotlib.", "numpy.", "logging.", "jax.", "gc.", "scipy.", "autograd.", "random.", "builtins.")
RESTORING = {
    "warnings": {"warnings.catch_warnings"}, "numpy-err": {"numpy.errstate"}, "numpy-print": {"numpy.printoptions"},
    "stream": {"contextlib.redirect_stdout", "contextlib.redirect_stderr"}, "matplotlib-rc": {"matplotlib.rc_context", "matplotlib.pyplot.rc_context"},
    "decimal": {"decimal.localcontext"}, "cwd": {"contextlib.chdir"}, "environ": {"unittest.mock.patch.dict"},
}


def run(repo, rep):
    rep.rule("unrestored-state", "a change of process-wide state is confined to a restoring scope on every exit")
    rep.rule("global-random-state", "no use of numpy's / random's global generator (every draw or seed changes it for everybody)")
    rep.rule("foreign-store", "no attribute or item of another library's objects is overwritten")
    writes = []
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            w = classify(repo, m, n, rep)
            if w is not None:
                writes.append((m, n) + w)
    byfunc = {}
    for m, n, kind, what in writes:
        byfunc.setdefault(enclosing_func(m, n), []).append((n, kind))
    for m, n, kind, what in writes:
        if in_main_guard(m, n):
            continue
        rep.count("state_changes_found")
        f = enclosing_func(m, n)
        if confined(repo, m, n, kind, f, byfunc):
            rep.count("state_changes_confined")
            rep.sample("confined", f"{m.rel}:{n.lineno} {unparse(n, 70)}")
            continue
        rule = "global-random-state" if kind == "global-random" else "foreign-store" if kind.startswith("store:") else "unrestored-state"
        args = "(" + ", ".join(repr(a.value) for a in [*n.args, *[k.value for k in n.keywords]] if isinstance(a, ast.Constant)) + ")" if isinstance(n, ast.Call) else ""
        rep.add(rule, f"{m.name} {what}{args}", f"{m.rel}:{n.lineno} {f.qual if f else '<module>'}",
                f"`{unparse(n, 90)}` changes process-wide state ({kind}) and nothing restores it on every exit")
    rep.floor("external_expressions", 3000)


def local_value(repo, m, f, name):
    if f is None:
        return None
    vs = repo.local_assigns(f).get(name, [])
    return vs[0] if len(vs) == 1 else None


def ext_of(repo, m, f, e, depth=0):
    """dotted path of an object of another library, following local aliases"""
    if depth > 4 or e is None:
        return None
    r = repo.resolve(e, m, f)
    if isinstance(r, Ext):
        return r.path
    if isinstance(e, ast.Name):
        v = local_value(repo, m, f, e.id)
        if isinstance(v, (ast.Name, ast.Attribute)):
            return ext_of(repo, m, f, v, depth + 1)
        if isinstance(r, Var) and isinstance(r.node, ast.Call):
            p = ext_of(repo, r.module, None, r.node.func, depth + 1)
            return p + "()" if p else None
        if isinstance(v, ast.Call):
            p = ext_of(repo, m, f, v.func, depth + 1)
            return p + "()" if p in CALLS_OF or managed(p) else None
    if isinstance(e, ast.Call):
        p = ext_of(repo, m, f, e.func, depth + 1)
        return p + "()" if p in CALLS_OF or managed(p) else None
    if isinstance(e, ast.Attribute):
        p = ext_of(repo, m, f, e.value, depth + 1)
        return f"{p}.{e.attr}" if p else None
    return None


def managed(p):
    """the kind of state a context manager changes while it is entered"""
    p = (p or "").removesuffix("()")
    return next((k for k, v in RESTORING.items() if p in v), None)


def state_kind(p):
    if p.startswith("os.environ"):
        return "environ"
    if p in ("sys.stdout", "sys.stderr", "sys.stdin"):
        return "stream"
    if p.startswith("sys.path"):
        return "sys.path"
    if p.startswith("matplotlib") and "rcParams" in p:
        return "matplotlib-rc"
    if p.startswith("warnings."):
        return "warnings"
    if p.startswith("logging."):
        return "logging"
    return "store:" + p


def classify(repo, m, n, rep):
    if isinstance(n, ast.Call):
        f = enclosing_func(m, n)
        p = ext_of(repo, m, f, n.func)
        c = repo.resolve(n.func, m, f) if p is None else None
        if isinstance(c, Class):        # a subclass of a class of another library
            p = next((b.path for b in c.mro if isinstance(b, Ext) and b.path in TABLE), None)
        if p is None:
            return None
        rep.count("external_expressions")
        if p in TABLE:
            return TABLE[p], p
        if p.endswith((".__enter__", ".__exit__")):
            k = managed(p.rsplit(".", 1)[0])
            if k:
                return k, p
        if is_global_random(p) and p not in SEEDED_CTORS and p not in ("os.urandom", "uuid.uuid4", "uuid.uuid1") and not p.startswith("secrets"):
            return "global-random", p
        if p in ("builtins.setattr", "builtins.delattr") and n.args:
            q = ext_of(repo, m, f, n.args[0])
            if q and "()" not in q:
                return state_kind(q), q
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            q = ext_of(repo, m, f, n.func.value)
            if q and (q.startswith(OWNERS) or q.startswith("logging.getLogger")) and not q.startswith("builtins") and n.func.attr + "" and not library_function(q, n.func.attr):
                return state_kind(q), q + "." + n.func.attr
    elif isinstance(n, (ast.With, ast.AsyncWith)):
        # a generator that is suspended inside of the scope leaves the changed state to whoever resumes it
        f = enclosing_func(m, n)
        if f is None or any(unparse(d).split(".")[-1] in ("contextmanager", "asynccontextmanager", "fixture") for d in f.node.decorator_list):
            return None
        for it in n.items:
            c = it.context_expr
            k = managed(ext_of(repo, m, f, c.func)) if isinstance(c, ast.Call) else None
            if k and any(isinstance(y, (ast.Yield, ast.YieldFrom)) and enclosing_func(m, y) is f for s in n.body for y in ast.walk(s)):
                return k, "yield inside of " + unparse(c.func)
    elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
        f = enclosing_func(m, n)
        p = ext_of(repo, m, f, n.value)
        if p is not None and p != "builtins.super":
            if isinstance(n, ast.Attribute):
                return state_kind(p + "." + n.attr), p + "." + n.attr
            if p == "sys.modules" and isinstance(n.slice, ast.Name) and n.slice.id == "__name__":
                return None             # a module's own entry
            return state_kind(p), p + "[]"
    return None


def library_function(q, attr):
    """numpy.append, numpy.insert ... are functions that return new arrays, not methods of a container"""
    return q in ("numpy", "scipy", "jax.numpy", "autograd.numpy", "sys", "logging", "warnings", "gc", "random")


def confined(repo, m, n, kind, f, byfunc, depth=0):
    stop = f.node if f is not None else None
    prev = n
    for a in ancestors(m, n):
        if isinstance(a, (ast.With, ast.AsyncWith)):
            for it in a.items:
                c = it.context_expr
                p = ext_of(repo, m, f, c.func) if isinstance(c, ast.Call) else None
                if p in RESTORING.get(kind, ()) and prev is not it:
                    return True
        if isinstance(a, ast.Try) and a.finalbody:
            if any(prev is s for s in a.finalbody):
                return True         # the restoring write itself
            if any(prev is s for s in a.body) and writes_kind(m, a.finalbody, kind, byfunc.get(f, [])):
                return True
        if a is stop:
            break
        prev = a
    # old = set(...) directly followed by try: ... finally: set(old)
    st, block, i = statement_of(m, n)
    if block is not None:
        for nx in block[i + 1:]:
            if isinstance(nx, ast.Try) and nx.finalbody and writes_kind(m, nx.finalbody, kind, byfunc.get(f, [])):
                return True
            if not isinstance(nx, (ast.Assign, ast.Expr)) or not any(x is k for k, _ in byfunc.get(f, []) for x in ast.walk(nx)):
                break
    if f is not None and f.name in ("__enter__", "__exit__", "__aenter__", "__aexit__") and f.cls is not None:
        other = f.cls.methods.get({"__enter__": "__exit__", "__exit__": "__enter__"}.get(f.name, ""))
        if other is not None and any(k == kind for _, k in byfunc.get(other, [])):
            return True
    # a private helper that is only called from confined places
    if f is not None and depth < 3 and f.name.startswith("_") and not f.name.startswith("__"):
        sites = call_sites(repo).get(f, [])
        if sites and all(confined(repo, sm, c, kind, sf, byfunc, depth + 1) for sf, c, sm in sites):
            return True
    return False


def writes_kind(m, stmts, kind, writes):
    ids = {id(x) for s in stmts for x in ast.walk(s)}
    return any(k == kind and id(w) in ids and not constant_write(m, w) for w, k in writes)


def constant_write(m, w):
    """the value written is a constant of the source: not the one found before"""
    if isinstance(w, ast.Call):
        if isinstance(w.func, ast.Attribute) and w.func.attr in MUTATORS | {"__exit__"}:
            return False
        args = list(w.args) + [k.value for k in w.keywords]
        return bool(args) and all(isinstance(a, ast.Constant) for a in args)
    if isinstance(w, (ast.Attribute, ast.Subscript)) and isinstance(w.ctx, ast.Store):
        for a in ancestors(m, w):
            if isinstance(a, ast.Assign):
                return isinstance(a.value, ast.Constant)
            if isinstance(a, ast.stmt):
                return False
    return False


SELFTESTS = [("state", {"pymoo/a.py": """
    import warnings, os, sys, numpy as np
    import matplotlib.pyplot as plt

    def bad_filter():
        warnings.simplefilter("ignore")

    def bad_err():
        np.seterr(all="ignore")
        try:
            work()
        except ValueError:
            np.seterr(all="warn")

    def bad_patch():
        np.float = float
        os.environ["A"] = "1"

    def bad_seed():
        np.random.seed(1)

    def bad_entered():
        np.errstate(all="ignore").__enter__()
        return work()

    def bad_entered_name():
        w = warnings.catch_warnings()
        w.__enter__()
        work()
        w.__exit__(None, None, None)

    def good_entered():
        w = np.errstate(all="ignore")
        w.__enter__()
        try:
            work()
        finally:
            w.__exit__(None, None, None)

    def bad_suspended():
        with np.printoptions(precision=3):
            yield 1

    def bad_default():
        np.set_printoptions(precision=3)
        try:
            work()
        finally:
            np.set_printoptions(precision=8)

    def good():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _quiet()
        old = np.seterr(all="ignore")
        try:
            work()
        finally:
            np.seterr(**old)
        with np.errstate(all="ignore"):
            a = np.append([1], 2)

    def _quiet():
        warnings.filterwarnings("ignore", "x")
    """}, [("unrestored-state", "pymoo.a warnings.simplefilter('ignore')"), ("unrestored-state", "pymoo.a numpy.seterr('ignore')"),
           ("unrestored-state", "pymoo.a numpy.seterr('warn')"), ("foreign-store", "pymoo.a numpy.float"),
           ("unrestored-state", "pymoo.a os.environ[]"), ("global-random-state", "pymoo.a numpy.random.seed(1)"),
           ("unrestored-state", "pymoo.a numpy.errstate().__enter__()"), ("unrestored-state", "pymoo.a warnings.catch_warnings().__enter__()"),
           ("unrestored-state", "pymoo.a warnings.catch_warnings().__exit__(None, None, None)"),
           ("unrestored-state", "pymoo.a yield inside of np.printoptions"),
           ("unrestored-state", "pymoo.a numpy.set_printoptions(3)")])]
