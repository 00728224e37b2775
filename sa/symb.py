"""Names resolved through single assignments and calls of helpers: expressions in a canonical form.

`Ctx` is a function together with the expressions its parameters stand for (when it is looked at as a helper of another
function). `canon(e, ctx)` prints an expression with single-assignment locals and parameters replaced by what they stand
for, so that the same value has the same text before and after a helper was extracted or a local introduced.
"""
import ast
from .model import *


class Ctx:
    def __init__(self, repo, f, args=None, up=None, cls=None):
        self.repo, self.f, self.args, self.up, self.cls = repo, f, args or {}, up, cls

    def depth(self):
        return 0 if self.up is None else 1 + self.up.depth()


def single(ctx, name):
    vs = ctx.repo.local_assigns(ctx.f).get(name, [])
    if name in ctx.f.args or name in ctx.f.kwonly:
        return None
    return vs[0] if len(vs) == 1 else None


def helper(ctx, call):
    """the package function a call goes to, if that is unique and small enough to look into"""
    if ctx.depth() > 4:
        return None
    ts = [t for t in ctx.repo.resolve_call(call, ctx.f, fallback=False)]
    if ctx.cls is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == ctx.repo.self_name(ctx.f):
        t = ctx.cls.lookup(call.func.attr)
        ts = [t] if t is not None else ts
    if len(ts) == 1 and isinstance(ts[0], Func):
        return ts[0]
    return None


def enter(ctx, call, t):
    m, *_ = bind_args(call, t)
    return Ctx(ctx.repo, t, m, ctx, ctx.cls)


def canon(e, ctx, depth=0):
    """canonical text of an expression"""
    if e is None or depth > 12:
        return "?"
    if isinstance(e, ast.Name):
        if ctx.up is not None and e.id in ctx.args and e.id not in ctx.repo.local_assigns(ctx.f):
            return canon(ctx.args[e.id], ctx.up, depth + 1)
        if ctx.up is not None and e.id == ctx.f.selfname and ctx.up.f.selfname:
            return "self"
        if e.id == ctx.f.selfname:
            return "self"
        v = single(ctx, e.id)
        if v is not None:
            return canon(v, ctx, depth + 1)
        return f"{e.id}@{ctx.depth()}" if e.id in ctx.repo.local_names(ctx.f) else e.id
    if isinstance(e, ast.Call):
        t = helper(ctx, e)
        if t is not None and ctx.depth() < 4:
            rets = [n for n in t.walk() if isinstance(n, ast.Return) and n.value is not None]
            if len(rets) == 1:
                return canon(rets[0].value, enter(ctx, e, t), depth + 1)
        fn = canon(e.func, ctx, depth + 1)
        return fn + "(" + ",".join([canon(a, ctx, depth + 1) for a in e.args] + [f"{k.arg}={canon(k.value, ctx, depth + 1)}" for k in e.keywords]) + ")"
    if isinstance(e, ast.Attribute):
        return canon(e.value, ctx, depth + 1) + "." + e.attr
    if isinstance(e, ast.Subscript):
        return canon(e.value, ctx, depth + 1) + "[" + canon(e.slice, ctx, depth + 1) + "]"
    if isinstance(e, ast.Constant):
        return repr(e.value)
    if isinstance(e, ast.BinOp):
        return f"({canon(e.left, ctx, depth + 1)} {type(e.op).__name__} {canon(e.right, ctx, depth + 1)})"
    if isinstance(e, ast.UnaryOp):
        return f"({type(e.op).__name__} {canon(e.operand, ctx, depth + 1)})"
    if isinstance(e, ast.Compare):
        return "(" + canon(e.left, ctx, depth + 1) + "".join(f" {type(o).__name__} {canon(c, ctx, depth + 1)}" for o, c in zip(e.ops, e.comparators)) + ")"
    if isinstance(e, ast.BoolOp):
        return "(" + f" {type(e.op).__name__} ".join(canon(v, ctx, depth + 1) for v in e.values) + ")"
    if isinstance(e, ast.IfExp):
        return f"({canon(e.body, ctx, depth + 1)} if {canon(e.test, ctx, depth + 1)} else {canon(e.orelse, ctx, depth + 1)})"
    if isinstance(e, (ast.Tuple, ast.List)):
        return "[" + ",".join(canon(x, ctx, depth + 1) for x in e.elts) + "]"
    return " ".join(ast.unparse(e).split())
