"""development aid: apply one behaviour-preserving rewrite to every function of a source tree
usage: refactor.py KIND SRC   (SRC is a scratch copy of /repo/src, edited in place)
The checks have to stay quiet on the result (tools/one.py with DV_SRC=SRC)."""
import ast, copy, os, sys

kind, src = sys.argv[1:3]
ctr = [0]


def fresh(p):
    ctr[0] += 1
    return f"_{p}{ctr[0]}"


class Names(ast.NodeVisitor):
    def __init__(self):
        self.s = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id not in self.s:
            self.s.append(n.id)


def locals_of(fn):
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def has_nested(fn):
    return any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.FunctionDef)) for b in fn.body for n in ast.walk(b))


class PerBlock(ast.NodeTransformer):
    """stmt-list rewrites"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.ClassDef, ast.Module)):
                out = []
                for s in b:
                    r = self.stmt(s)
                    out += r if isinstance(r, list) else [r]
                setattr(n, f, out)
        return n


class TempReturn(PerBlock):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
            v = fresh("res")
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
        return s


class ExpandAug(PerBlock):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name,)):
            t = copy.deepcopy(s.target); t.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Attribute,)) and isinstance(s.target.value, ast.Name):
            t = copy.deepcopy(s.target); t.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
        return s


class InvertIf(PerBlock):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


class ForWhile(PerBlock):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "range" and not s.orelse \
                and not any(isinstance(n, (ast.Continue,)) for n in ast.walk(s)):
            a = s.iter.args
            lo, hi, st = (ast.Constant(0), a[0], ast.Constant(1)) if len(a) == 1 else (a[0], a[1], ast.Constant(1)) if len(a) == 2 else a
            if not isinstance(st, ast.Constant):
                return s
            i, h = fresh("i"), fresh("stop")
            return [ast.Assign([ast.Name(i, ast.Store())], lo), ast.Assign([ast.Name(h, ast.Store())], hi),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(h, ast.Load())]),
                              [ast.Assign([s.target], ast.Name(i, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), st)], [])]
        return s


class CompLoop(PerBlock):
    """v = [e for x in it]  ->  explicit loop"""
    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
            g = v.generators[0]
            r = fresh("acc")
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(r, ast.Load()), "append", ast.Load()), [v.elt], []))]
            for c in g.ifs:
                body = [ast.If(c, body, [])]
            s.value = ast.Name(r, ast.Load())
            return [ast.Assign([ast.Name(r, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), s]
        return s


class Noop(PerBlock):
    def stmt(self, s):
        if isinstance(s, ast.Return):
            return [ast.Assign([ast.Name(fresh("unused"), ast.Store())], ast.Constant(None)), ast.Pass(), s]
        return s


class Commute(ast.NodeTransformer):
    """a*b -> b*a for numeric-looking operands; a < b -> b > a"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class NestCalls(PerBlock):
    """evaluate each call argument that is itself a call into a temporary first"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and not any(isinstance(k.value, ast.Starred) for k in s.value.keywords):
            pre = []
            c = s.value
            def hoist(e):
                if isinstance(e, (ast.BinOp, ast.Call)):
                    v = fresh("arg")
                    pre.append(ast.Assign([ast.Name(v, ast.Store())], e))
                    return ast.Name(v, ast.Load())
                return e
            # receiver first, as evaluated
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call):
                c.func.value = hoist(c.func.value)
            c.args = [hoist(a) for a in c.args]
            return pre + [s]
        return s


class Tuples(PerBlock):
    """merge adjacent independent simple assignments into a tuple assignment is unsafe in general; instead split one"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
            a, b = fresh("lhs"), fresh("rhs")
            return [ast.Assign([ast.Name(a, ast.Store())], s.value.left), ast.Assign([ast.Name(b, ast.Store())], s.value.right),
                    ast.Assign(s.targets, ast.BinOp(ast.Name(a, ast.Load()), s.value.op, ast.Name(b, ast.Load())))]
        return s


def rename_locals(fn):
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for b in fn.body for n in ast.walk(b)):
        return
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    loc = locals_of(fn) - args
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = "v_" + n.id


def extract(fn, module_fns, cls, static=False):
    """the value of every return and of every assignment of an operator expression becomes a helper's result"""
    if has_nested(fn):
        return
    loc = locals_of(fn)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Return, ast.Assign)) and isinstance(n.value, (ast.BinOp, ast.Call, ast.Compare)):
            if any(isinstance(x, ast.Name) and x.id in ("super", "cls", "__class__") for x in ast.walk(n.value)):
                continue
            nm = Names(); nm.visit(n.value)
            used = [x for x in nm.s if x in loc]
            h = fresh("helper")
            module_fns.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(n.value)], [], None, None, type_params=[]))
            n.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])


def guard(fn):
    """if A: return x; rest  ->  if A: return x else: rest"""
    def blk(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and i + 1 < len(b):
                s.orelse = blk(b[i + 1:])
                return b[:i + 1]
        return b
    fn.body = blk(fn.body)


def reorder(fn):
    """swap adjacent assignments to plain names that do not read one another and whose values call nothing but attributes/arithmetic"""
    def pure(e):
        return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await)) for x in ast.walk(e))
    def rd(e):
        return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    def go(b):
        i = 0
        while i + 1 < len(b):
            a, c = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in (a, c)) and (pure(a.value) or pure(c.value)):
                ta, tc = a.targets[0].id, c.targets[0].id
                if ta != tc and ta not in rd(c.value) and tc not in rd(a.value):
                    b[i], b[i + 1] = c, a
                    i += 2
                    continue
            i += 1
        for s in b:
            for f in ("body", "orelse"):
                if isinstance(getattr(s, f, None), list):
                    go(getattr(s, f))
    go(fn.body)


for d, _, fs in os.walk(src):
    for f in fs:
        if not f.endswith(".py"):
            continue
        p = os.path.join(d, f)
        text = open(p).read()
        t = ast.parse(text)
        if not t.body:
            continue
        extra = []
        C = {"tempreturn": TempReturn, "aug": ExpandAug, "invert": InvertIf, "forwhile": ForWhile, "comploop": CompLoop, "noop": Noop,
             "commute": Commute, "hoist": NestCalls, "split": Tuples}.get(kind)
        for node in t.body:
            fns = [node] if isinstance(node, ast.FunctionDef) else [m for m in node.body if isinstance(m, ast.FunctionDef)] if isinstance(node, ast.ClassDef) else []
            for fn in fns:
                if C:
                    C().visit(fn)
                elif kind == "rename":
                    rename_locals(fn)
                elif kind == "extract":
                    extract(fn, extra, None)
                elif kind == "guard":
                    guard(fn)
                elif kind == "reorder":
                    reorder(fn)
                else:
                    sys.exit("unknown kind")
        t.body += extra
        ast.fix_missing_locations(t)
        open(p, "w").write(ast.unparse(t) + "\n")
