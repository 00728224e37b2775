"""One form for things that can be written in several ways: applied to every module after parsing, so that the checks judge
what the code does and not how it is written. All rewrites keep the meaning; line numbers stay those of the source."""
import ast

NEGATED = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}

FLIPPED = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def constant(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class Normal(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            c = n.operand
            if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(c.operand, (ast.Compare, ast.UnaryOp)):
                return c.operand
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in NEGATED and isinstance(c.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                return ast.copy_location(ast.Compare(c.left, [NEGATED[type(c.ops[0])]()], c.comparators), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIPPED and constant(n.left) and not constant(n.comparators[0]):
            return ast.copy_location(ast.Compare(n.comparators[0], [FLIPPED[type(n.ops[0])]()], [n.left]), n)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
            n.test, n.body, n.orelse = n.test.operand, n.orelse, n.body
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
            n.test, n.body, n.orelse = n.test.operand, n.orelse, n.body
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        counts = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                counts[x.id] = counts.get(x.id, 0) + 1
        counting(n)
        lists(n, counts)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


def counting(n):
    """i = 0; while i < m: ...; i += 1 is a loop over range(m)"""
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(n, fld, None)
        if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
            continue
        for s in b:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                counting(s)
        for i in range(1, len(b)):
            r = counted(b[i - 1], b[i])
            if r is not None:
                b[i - 1], b[i] = None, r
        if None in b:
            b[:] = [s for s in b if s is not None]


def counted(s, loop):
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and type(s.value.value) is int):
        return None
    i = s.targets[0].id
    if not (isinstance(loop, ast.While) and not loop.orelse and len(loop.body) > 1 and isinstance(loop.test, ast.Compare) and len(loop.test.ops) == 1):
        return None
    t = loop.test
    if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and t.left.id == i:
        end = t.comparators[0]
    elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name) and t.comparators[0].id == i:
        end = t.left
    else:
        return None
    step, body = loop.body[-1], loop.body[:-1]
    one = isinstance(step, ast.AugAssign) and isinstance(step.op, ast.Add) and isinstance(step.target, ast.Name) and step.target.id == i and isinstance(step.value, ast.Constant) and step.value.value == 1
    one |= (isinstance(step, ast.Assign) and len(step.targets) == 1 and isinstance(step.targets[0], ast.Name) and step.targets[0].id == i and isinstance(step.value, ast.BinOp)
            and isinstance(step.value.op, ast.Add) and ast.dump(step.value.left) == ast.dump(ast.Name(i, ast.Load())) and isinstance(step.value.right, ast.Constant) and step.value.right.value == 1)
    if not one:
        return None
    stored = {x.id for y in body for x in ast.walk(y) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
    if i in stored or names(end) & stored or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for y in body for x in ast.walk(y)):
        return None
    # the end is a number that the body does not change: a local name, a number, the length of something that is not changed
    e = end
    if isinstance(e, ast.Call):
        if not (isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and isinstance(e.args[0], ast.Name)):
            return None
        x = e.args[0].id
        for y in body:
            for n in ast.walk(y):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == x or isinstance(n, ast.Delete):
                    return None
    elif not isinstance(e, (ast.Name, ast.Constant)):
        return None

    def skips(b):
        return any(isinstance(y, ast.Continue) or not isinstance(y, (ast.For, ast.While, ast.FunctionDef)) and skips([z for f in ("body", "orelse", "finalbody", "handlers") for z in getattr(y, f, [])]) for y in b)
    if skips(body):
        return None
    rng = ast.Call(ast.Name("range", ast.Load()), ([s.value] if s.value.value else []) + [end], [])
    return ast.copy_location(ast.For(ast.Name(i, ast.Store()), ast.copy_location(rng, loop.test), body, [], lineno=loop.lineno), loop)


def lists(n, counts):
    """x = [] followed by a loop that does nothing but append to x is a list comprehension"""
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(n, fld, None)
        if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
            continue
        for s in b:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                lists(s, counts)
        i = 0
        while i + 1 < len(b):
            c = collected(b[i], b[i + 1], counts)
            if c is not None:
                b[i:i + 2] = [c]
            i += 1


def collected(s, loop, counts):
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts):
        return None
    if not (isinstance(loop, ast.For) and not loop.orelse and len(loop.body) == 1):
        return None
    x, ifs, st = s.targets[0].id, [], loop.body[0]
    while isinstance(st, ast.If) and not st.orelse and len(st.body) == 1:
        ifs.append(st.test)
        st = st.body[0]
    if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "append"
            and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == x and len(st.value.args) == 1 and not st.value.keywords):
        return None
    e = st.value.args[0]
    used = names(e) | names(loop.iter) | {y for t in ifs for y in names(t)}
    if x in used or any(isinstance(y, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Starred)) for y in ast.walk(loop)):
        return None
    if not all(isinstance(y, (ast.Name, ast.Tuple, ast.List, ast.Load, ast.Store)) for y in ast.walk(loop.target)):
        return None
    here = {}
    for y in ast.walk(loop):
        if isinstance(y, ast.Name):
            here[y.id] = here.get(y.id, 0) + 1
    for v in names(loop.target):
        if counts.get(v, 0) != here.get(v, 0) or v in names(loop.iter):
            return None                      # the variable is used outside of the loop as well
    comp = ast.copy_location(ast.ListComp(e, [ast.comprehension(loop.target, loop.iter, ifs, 0)]), loop)
    return ast.copy_location(ast.Assign([s.targets[0]], comp, lineno=s.lineno), s)


def normal(tree):
    return ast.fix_missing_locations(Normal().visit(tree))
