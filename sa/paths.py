"""A small abstract executor: follows all statement paths of a function with a set of abstract states.

Subclass and override `event` (a call, assignment, ... was executed), `branch` (a test had an outcome) and `inline`
(look into a helper). Loops are followed zero and one times (or exactly once), handlers are entered with every state
their body can be in.
"""
import ast
from .model import *
from .symb import Ctx, enter, helper

LIMIT = 400


class Out:
    def __init__(self):
        self.fall, self.ret, self.brk, self.cont, self.exc = set(), set(), set(), set(), set()


class Walker:
    loops_once = False
    implicit_exc = False        # every call may raise

    def __init__(self, repo):
        self.repo = repo
        self.stack = []

    # hooks ------------------------------------------------------------------
    def event(self, node, ctx, s):
        return s

    def branch(self, test, ctx, s, taken):
        return s

    def inline(self, call, ctx):
        return None

    # ------------------------------------------------------------------------
    def run(self, f, ctx, states):
        o = self.block(f.body, ctx, set(states))
        return o.fall | o.ret, o.exc

    def block(self, body, ctx, states):
        out = Out()
        cur = set(states)
        for st in body:
            if not cur:
                break
            o = self.stmt(st, ctx, cur)
            out.ret |= o.ret
            out.brk |= o.brk
            out.cont |= o.cont
            out.exc |= o.exc
            cur = o.fall
            if len(cur) > LIMIT:
                raise RuntimeError("too many states")
        out.fall = cur
        return out

    def split(self, test, ctx, states, out):
        states = self.expr(test, ctx, states, out)
        return self.outcome(test, ctx, states, True), self.outcome(test, ctx, states, False)

    def outcome(self, test, ctx, states, taken):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.outcome(test.operand, ctx, states, not taken)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == taken:           # all parts have this outcome
                for v in test.values:
                    states = self.outcome(v, ctx, states, taken)
                return states
            res, rest = set(), states   # the first part that decides
            for v in test.values:
                res |= self.outcome(v, ctx, rest, taken)
                rest = self.outcome(v, ctx, rest, not taken)
            return res
        if isinstance(test, ast.Constant):
            return set(states) if bool(test.value) == taken else set()
        res = set()
        for s in states:
            r = self.branch(test, ctx, s, taken)
            if r is not None:
                res.add(r)
        return res

    def stmt(self, st, ctx, states):
        o = Out()
        if isinstance(st, ast.If):
            a, b = self.split(st.test, ctx, states, o)
            for blk, ss in ((st.body, a), (st.orelse, b)):
                self.merge(o, self.block(blk, ctx, ss) if ss else Out())
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(st, ast.While):
                ent, skip = self.split(st.test, ctx, states, o)
            else:
                ent = skip = self.expr(st.iter, ctx, states, o)
                ent = self.bind(st, ctx, ent)
            b = self.block(st.body, ctx, ent)
            once = b.fall | b.cont
            o.ret |= b.ret
            o.exc |= b.exc
            done = set(once) if (self.loops_once and not isinstance(st, ast.While)) else once | skip
            e = self.block(st.orelse, ctx, done)
            o.fall |= e.fall | b.brk
            o.ret |= e.ret
            o.brk |= e.brk
            o.cont |= e.cont
            o.exc |= e.exc
        elif isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
            saved = self.implicit_exc
            inside = Out()
            self.stack.append(set(states))
            b = self.block(st.body, ctx, states)
            seen = self.stack.pop() | b.exc
            inside.ret, inside.brk, inside.cont = b.ret, b.brk, b.cont
            e = self.block(st.orelse, ctx, b.fall)
            inside.fall = e.fall
            inside.ret |= e.ret
            inside.brk |= e.brk
            inside.cont |= e.cont
            inside.exc |= e.exc
            catch_all = False
            for h in st.handlers:
                r = self.block(h.body, ctx, seen)
                self.merge(inside, r)
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                    catch_all = True
            if not catch_all:
                inside.exc |= b.exc
            if st.finalbody:
                for k in ("fall", "ret", "brk", "cont", "exc"):
                    ss = getattr(inside, k)
                    if ss:
                        r = self.block(st.finalbody, ctx, ss)
                        getattr(o, k).update(r.fall)
                        o.ret |= r.ret
                        o.exc |= r.exc
            else:
                self.merge(o, inside)
            self.implicit_exc = saved
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            cur = states
            for it in st.items:
                cur = self.expr(it.context_expr, ctx, cur, o)
                cur = self.each(it, ctx, cur)
            self.merge(o, self.block(st.body, ctx, cur))
        elif isinstance(st, ast.Return):
            o.ret |= self.each(st, ctx, self.expr(st.value, ctx, states, o))
        elif isinstance(st, ast.Raise):
            o.exc |= self.each(st, ctx, self.expr(st.exc, ctx, states, o))
        elif isinstance(st, ast.Assert):
            a, b = self.split(st.test, ctx, states, o)
            o.fall |= a
            o.exc |= b
        elif isinstance(st, ast.Break):
            o.brk |= states
        elif isinstance(st, ast.Continue):
            o.cont |= states
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            o.fall |= states
        else:
            cur = states
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.expr) and not (isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and ch in self.targets(st) and isinstance(ch, ast.Name)):
                    cur = self.expr(ch, ctx, cur, o)
            o.fall |= self.each(st, ctx, cur)
        return o

    @staticmethod
    def targets(st):
        return st.targets if isinstance(st, ast.Assign) else [st.target]

    def bind(self, st, ctx, states):
        return self.each(st, ctx, states)

    @staticmethod
    def merge(o, r):
        o.fall |= r.fall
        o.ret |= r.ret
        o.brk |= r.brk
        o.cont |= r.cont
        o.exc |= r.exc

    def each(self, node, ctx, states):
        out = {self.event(node, ctx, s) for s in states}
        out.discard(None)
        for seen in self.stack:
            seen |= out
        return out

    def expr(self, e, ctx, states, o):
        if e is None or not states:
            return set(states)
        cur = set(states)
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return cur
        if isinstance(e, ast.BoolOp):
            cur = self.expr(e.values[0], ctx, cur, o)
            res = set(cur)
            for v in e.values[1:]:
                cur = self.expr(v, ctx, cur, o)
                res |= cur
            return res
        if isinstance(e, ast.IfExp):
            a, b = self.split(e.test, ctx, cur, o)
            return self.expr(e.body, ctx, a, o) | self.expr(e.orelse, ctx, b, o)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                cur = self.expr(g.iter, ctx, cur, o)
            body = cur
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                body = self.expr(x, ctx, body, o)
            return body if self.loops_once else body | cur
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                cur = self.expr(ch, ctx, cur, o)
            elif isinstance(ch, ast.keyword):
                cur = self.expr(ch.value, ctx, cur, o)
        if isinstance(e, ast.Call):
            c = self.inline(e, ctx) if ctx.depth() < 6 else None
            if c is not None:
                fall, exc = self.run(c.f, c, cur)
                o.exc |= exc
                cur = fall
            else:
                if self.implicit_exc:
                    o.exc |= cur
                cur = self.each(e, ctx, cur)
        elif isinstance(e, (ast.Await, ast.Yield, ast.YieldFrom)):
            cur = self.each(e, ctx, cur)
        return cur
