"""Loads /repo/src/openspace afresh on every run.

mode "sym":   the source files are parsed and re-executed with
                * float literals read as the exact decimal written,
                * `/` and `**` routed through exact helpers,
                * loops routed through the loop-cut protocol of the engine,
                * `math` / `random` / a few builtins replaced by symbolic versions.
              Everything else (classes, inheritance, closures, comprehensions, default
              arguments, decorators ...) is CPython executing the repository's own code.
mode "native": the files are executed untransformed (used to replay failing inputs).
"""
import ast
import builtins
import importlib
import math
import os
import random as _random
import sys
import types
import mpmath as mp
from . import terms as tm
from .terms import T, B, lift, Unsupported

SRC = os.environ.get("DV_SRC", "/repo/src")
PKG = "openspace"


# ----------------------------------------------------------------- transformer
class Transform(ast.NodeTransformer):
    def __init__(self, fname, loops=True):
        self.fname = fname
        self.n = 0
        self.loops = loops

    def _call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(self._call("_dv_lit", ast.Constant(value=repr(node.value))), node)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
                if not self.loops:
                    v.value = ast.copy_location(self._call("_dv_fmt", v.value), v.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        name = {ast.Div: "_dv_div", ast.Pow: "_dv_pow"}.get(type(node.op))
        if name:
            return ast.copy_location(self._call(name, node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        name = {ast.Div: "_dv_div", ast.Pow: "_dv_pow"}.get(type(node.op))
        if not name:
            return node
        load = ast.parse(ast.unparse(node.target), mode="eval").body
        return ast.copy_location(ast.Assign(targets=[node.target], value=self._call(name, load, node.value)), node)

    # annotations are not evaluated symbolically
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.body = self._body(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        if node.name == "__bool__":
            # Python demands a bool proper here: decide a symbolic comparison
            for n in ast.walk(node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n.value = ast.copy_location(self._call("_dv_bool", n.value), n.value)
        return node

    def _body(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            out.extend(r if isinstance(r, list) else [r] if r is not None else [])
        return out

    @staticmethod
    def _assigned(body):
        names = set()

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_FunctionDef(s, n):
                names.add(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass

            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        for st in body:
            V().visit(st)
        return sorted(n for n in names if not n.startswith("_dv"))

    def visit_While(self, node):
        self.generic_visit(node)
        if not self.loops:
            return node
        self.n += 1
        uid = f"{self.fname}:{node.lineno}"
        names = self._assigned(node.body)
        return self._loop(uid, names, node.test, node.body, node.orelse, node)

    def _loop(self, uid, names, test, body, orelse, node):
        tok = f"_dv_tok{self.n}"
        pre = ast.parse(f"{tok} = _dv_enter({uid!r}, {names!r})").body
        if names:
            head = ast.parse(f"[{', '.join(names)},] = _dv_head({tok}, locals())").body
        else:
            head = ast.parse(f"_dv_head({tok}, locals())").body
        guard = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[])
        if orelse:
            flag = f"_dv_else{self.n}"
            pre += ast.parse(f"{flag} = False").body
            guard.body = ast.parse(f"{flag} = True").body + [ast.Break()]
        mark = ast.parse(f"_dv_body({tok})").body
        loop = ast.While(test=ast.Constant(value=True), body=head + [guard] + mark + body, orelse=[])
        post = ast.parse(f"_dv_exit({tok})").body
        out = pre + [loop] + post
        if orelse:
            out.append(ast.If(test=ast.Name(id=flag, ctx=ast.Load()), body=orelse, orelse=[]))
        for st in out:
            ast.copy_location(st, node)
            ast.fix_missing_locations(st)
        return out

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.loops:
            return node
        self.n += 1
        k = self.n
        uid = f"{self.fname}:{node.lineno}"
        it, idx = f"_dv_it{k}", f"_dv_ix{k}"
        names = self._assigned(node.body + [ast.Assign(targets=[node.target], value=ast.Constant(value=0))])
        pre = ast.parse(f"{it} = _dv_iter()").body
        pre[0].value.args = [node.iter]
        import copy

        conc = ast.For(target=copy.deepcopy(node.target), iter=ast.Name(id=it, ctx=ast.Load()), body=copy.deepcopy(node.body), orelse=copy.deepcopy(node.orelse))
        init = ast.parse(f"{idx} = {it}.start").body
        test = ast.parse(f"{it}.more({idx})", mode="eval").body
        adv = [ast.Assign(targets=[node.target], value=ast.Name(id=idx, ctx=ast.Load()))] + ast.parse(f"{idx} = {idx} + {it}.step").body
        loop = self._loop(uid, sorted(names + [idx]), test, adv + node.body, node.orelse, node)
        st = ast.If(test=ast.parse(f"{it}.__class__ is _dv_symrange", mode="eval").body, body=init + loop, orelse=[conc])
        out = pre + [st]
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def more(self, i):
        return bool(lift(i) < self.stop) if lift(self.step) > 0 else bool(lift(i) > self.stop)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a for statement")


def _plain(x):
    """T constant integer -> int"""
    if isinstance(x, T) and x.op == "c" and x.args[0].denominator == 1:
        return int(x.args[0])
    return x


def sym_range(*a):
    a = [_plain(x) for x in a]
    if not any(isinstance(x, T) for x in a):
        return range(*a)
    a = [x if not (isinstance(x, T) and x.isconst) else int(x.num()) for x in a]
    if not any(isinstance(x, T) for x in a):
        return range(*a)
    if any(isinstance(x, T) and x.sort != "int" for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    return SymRange(a[0], a[1], a[2] if len(a) == 3 else 1)


# ------------------------------------------------------------------- math shim
def _hypot(*xs):
    return tm.sqrt(sum((lift(x) * x for x in xs), tm.ZERO))


def _copysign(x, y):
    m = abs(lift(x))
    return m if lift(y) >= 0 else -m


def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    a, b = lift(a), lift(b)
    m = max(abs(a), abs(b))
    return bool(abs(a - b) <= max(lift(rel_tol) * m, lift(abs_tol)))


def _fmod(x, y):
    x, y = lift(x), lift(y)
    return x - y * tm.trunc(x / y)


def make_math():
    m = types.ModuleType("math")
    for k in dir(math):
        if not k.startswith("_"):
            v = getattr(math, k)
            setattr(m, k, v)

    def unsup(name):
        def f(*a, **k):
            if any(isinstance(x, T) for x in a):
                raise Unsupported("math." + name)
            return getattr(math, name)(*a, **k)

        return f

    for k in dir(math):
        if callable(getattr(math, k)) and not k.startswith("_"):
            setattr(m, k, unsup(k))
    for k in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "log10", "floor", "ceil", "trunc", "radians", "degrees"):
        setattr(m, k, getattr(tm, k))
    m.pi, m.e, m.tau = tm.PI, tm.E, 2 * tm.PI
    m.hypot = _hypot
    m.fabs = lambda x: abs(lift(x))
    m.pow = lambda a, b: tm.power(lift(a), lift(b))
    m.fsum = lambda xs: sum(xs, tm.ZERO)
    m.prod = lambda xs, start=1: _prod(xs, start)
    m.dist = lambda p, q: _hypot(*[lift(a) - b for a, b in zip(p, q)])
    m.copysign = _copysign
    m.isclose = _isclose
    m.fmod = _fmod
    m.cbrt = lambda x: tm.power(lift(x), tm.const(tm.Fraction(1, 3)))
    m.isnan = lambda x: False if isinstance(x, T) else math.isnan(x)
    m.isinf = lambda x: False if isinstance(x, T) else math.isinf(x)
    m.isfinite = lambda x: True if isinstance(x, T) else math.isfinite(x)
    m.remainder = unsup("remainder")
    m.log2 = lambda x: tm.log(x) / tm.log(2)
    m.log1p = lambda x: tm.log(1 + lift(x))
    m.expm1 = lambda x: tm.exp(lift(x)) - 1
    m.gcd = math.gcd
    m.sumprod = lambda p, q: sum((lift(a) * b for a, b in zip(p, q)), tm.ZERO)
    m.modf = lambda x: (lift(x) - tm.trunc(x), tm.trunc(x))
    m.factorial = math.factorial
    m.comb = math.comb
    m.inf, m.nan = math.inf, math.nan
    return m


def _prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


# ------------------------------------------------ high-precision concrete mode
def _mpf(x):
    if isinstance(x, mp.mpf):
        return x
    if isinstance(x, T):
        return x.num()
    return mp.mpf(x)


def _mp_floordiv(a, b):
    a, b = _mpf(a), _mpf(b)
    if b == 0:
        raise ZeroDivisionError("float floor division by zero")
    return mp.floor(a / b)


def _mp_divmod(a, b):
    q = _mp_floordiv(a, b)
    return q, _mpf(a) - q * b


def _mp_ratio(x):
    sign, man, exp, _ = x._mpf_
    f = tm.Fraction(-int(man) if sign else int(man)) * tm.Fraction(2) ** exp
    return f.numerator, f.denominator


# what a Python float offers and an mpf does not
for _k, _f in {
    "__floordiv__": _mp_floordiv,
    "__rfloordiv__": lambda b, a: _mp_floordiv(a, b),
    "__divmod__": _mp_divmod,
    "__rdivmod__": lambda b, a: _mp_divmod(a, b),
    "is_integer": lambda x: x == mp.floor(x),
    "as_integer_ratio": _mp_ratio,
    "__trunc__": lambda x: int(x),
    "__floor__": lambda x: int(mp.floor(x)),
    "__ceil__": lambda x: int(mp.ceil(x)),
    "__format__": lambda x, f: format(float(x), f) if f else str(x),
}.items():
    if _k == "__format__" or not hasattr(mp.mpf, _k):
        setattr(mp.mpf, _k, _f)


def make_mpmath():
    m = types.ModuleType("math")
    tiny = mp.mpf(10) ** -30

    def dom(f, lo, hi, name):
        def g(x):
            x = _mpf(x)
            if lo is not None and x < lo:
                if x < lo - tiny:
                    raise ValueError("math domain error")
                x = mp.mpf(lo)
            if hi is not None and x > hi:
                if x > hi + tiny:
                    raise ValueError("math domain error")
                x = mp.mpf(hi)
            return f(x)

        return g

    def f1(f):
        return lambda x: f(_mpf(x))

    for k in ("sin", "cos", "tan", "atan", "exp", "sinh", "cosh", "tanh", "asinh", "cbrt", "expm1"):
        setattr(m, k, f1(getattr(mp, k)))
    m.sqrt = dom(mp.sqrt, 0, None, "sqrt")
    m.asin = dom(mp.asin, -1, 1, "asin")
    m.acos = dom(mp.acos, -1, 1, "acos")
    m.acosh = dom(mp.acosh, 1, None, "acosh")
    m.atanh = dom(mp.atanh, -1, 1, "atanh")

    def log(x, base=None):
        x = _mpf(x)
        if x <= 0:
            raise ValueError("math domain error")
        return mp.log(x) if base is None else mp.log(x) / mp.log(_mpf(base))

    m.log, m.log10, m.log2, m.log1p = log, lambda x: log(x, 10), lambda x: log(x, 2), lambda x: log(1 + _mpf(x))
    m.atan2 = lambda y, x: mp.atan2(_mpf(y), _mpf(x)) if (y != 0 or x != 0) else mp.mpf(0)

    def fl(x):
        # an exact integer up to evaluation noise
        x = _mpf(x)
        r = mp.nint(x)
        return int(r) if abs(x - r) < tiny * (1 + abs(x)) else int(mp.floor(x))

    m.floor = fl
    m.ceil = lambda x: -fl(-_mpf(x))
    m.trunc = lambda x: fl(x) if x >= 0 else -fl(-_mpf(x))
    m.radians = lambda x: _mpf(x) * mp.pi / 180
    m.degrees = lambda x: _mpf(x) * 180 / mp.pi
    m.pi, m.e, m.tau, m.inf, m.nan = +mp.pi, +mp.e, 2 * mp.pi, mp.inf, mp.nan
    m.fabs = lambda x: abs(_mpf(x))
    m.hypot = lambda *a: mp.sqrt(sum((_mpf(x) ** 2 for x in a), mp.mpf(0)))
    m.dist = lambda p, q: m.hypot(*[_mpf(a) - b for a, b in zip(p, q)])
    m.pow = lambda a, b: _mp_pow(a, b)
    m.fsum = lambda xs: sum(xs, mp.mpf(0))
    m.prod = _prod
    m.sumprod = lambda p, q: sum((_mpf(a) * b for a, b in zip(p, q)), mp.mpf(0))
    m.copysign = lambda x, y: abs(_mpf(x)) if y >= 0 else -abs(_mpf(x))
    m.fmod = lambda x, y: _mpf(x) - _mpf(y) * m.trunc(_mpf(x) / y)
    m.remainder = lambda x, y: _mpf(x) - _mpf(y) * mp.nint(_mpf(x) / y)
    m.modf = lambda x: (_mpf(x) - m.trunc(x), _mpf(m.trunc(x)))
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
    m.isnan, m.isinf, m.isfinite = mp.isnan, mp.isinf, mp.isfinite
    m.gcd, m.factorial, m.comb = math.gcd, math.factorial, math.comb

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("math." + name)

    m.__getattr__ = missing
    return m


def _mp_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return mp.mpf(a) / b
    return a / b


def _mp_pow(a, b):
    if isinstance(b, int) and b >= 0:
        return a ** b
    if isinstance(a, (int, mp.mpf, float)) and isinstance(b, (int, mp.mpf, float)):
        a, b = _mpf(a), _mpf(b)
        if a < 0 and b != int(b):
            raise ValueError("math domain error")
        if a == 0 and b < 0:
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return mp.power(a, b)
    return a ** b


class _MPFloat(float):
    def __new__(cls, x=0.0):
        return mp.mpf(x) if not isinstance(x, mp.mpf) else x


class _MPInt(int):
    def __new__(cls, x=0, *a):
        if isinstance(x, mp.mpf):
            return int(mp.floor(x)) if x >= 0 else -int(mp.floor(-x))
        return int(x, *a)


def _mp_isinstance(o, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(o, mp.mpf):
        return any(k in (_MPFloat, float) or getattr(k, "__module__", "") == "numbers" or isinstance(o, k) for k in cs)
    return isinstance(o, tuple(int if k is _MPInt else float if k is _MPFloat else k for k in cs))


class RandomSource:
    """every draw is a fresh nondeterministic value; the engine / replayer supplies them"""

    def __init__(self):
        self.draw = None  # callable(kind) -> standard draw
        self.seeded = False

    def std(self, kind):
        if self.draw is None:
            raise Unsupported("random draw outside a run")
        return self.draw(kind)


def make_random(src, sym):
    m = types.ModuleType("random")
    L = lift if sym else (lambda x: x)
    m.gauss = lambda mu=0.0, sigma=1.0: L(mu) + L(sigma) * src.std("gauss")
    m.normalvariate = m.gauss
    m.uniform = lambda a, b: L(a) + (L(b) - L(a)) * src.std("unit")
    m.random = lambda: src.std("unit")

    def reseed(*a, **k):
        src.seeded = src.draw is not None

    class Random:
        """an independent generator: the same nondeterministic draws"""

        def __init__(self, *a):
            if a and a[0] is not None:
                src.seeded = src.draw is not None

        gauss = staticmethod(m.gauss)
        normalvariate = staticmethod(m.gauss)
        uniform = staticmethod(m.uniform)
        random = staticmethod(m.random)
        seed = staticmethod(reseed)

    m.seed = reseed
    m.Random = m.SystemRandom = Random

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if sym:
            raise Unsupported("random." + name)
        return getattr(_random, name)

    m.__getattr__ = missing
    return m


class _DVFloat(float):
    def __new__(cls, x=0.0):
        if isinstance(x, str):
            return tm.lit(x)
        r = lift(x)
        if r is None:
            return float(x)
        return r


class _DVInt(int):
    def __new__(cls, x=0, *a):
        if isinstance(x, T):
            if x.op == "c" and x.args[0].denominator == 1:
                return int(x.args[0])
            r = tm.trunc(x)
            return _plain(r)
        return int(x, *a)


def _isinstance(o, c):
    cs = c if isinstance(c, tuple) else (c,)
    out = []
    for k in cs:
        if k is _DVFloat or k is float:
            out += [float, T]
        elif k is _DVInt or k is int:
            out.append(int)
            if isinstance(o, T) and o.sort == "int":
                return True
        else:
            out.append(k)
            if isinstance(o, T) and getattr(k, "__module__", "") == "numbers":
                return True
    try:
        return isinstance(o, tuple(out))
    except TypeError:
        return isinstance(o, c)


class Loader:
    def __init__(self, mode, wrap=None, enter=None, head=None, exit_=None, src=None):
        self.mode = mode
        self.src = src or SRC
        self.mods = {}
        self.rand = RandomSource()
        self.wrap = wrap
        self.math = make_math() if mode == "sym" else make_mpmath() if mode == "mp" else math
        self.random = make_random(self.rand, mode == "sym")
        b = dict(vars(builtins))
        b["__import__"] = self._import
        if mode == "sym":
            b["float"], b["int"], b["range"], b["isinstance"] = _DVFloat, _DVInt, sym_range, _isinstance
            b["pow"] = lambda a, c, *r: pow(a, c, *r) if r else tm.power(lift(a), lift(c))
        if mode == "mp":
            b["float"], b["int"], b["isinstance"], b["pow"] = _MPFloat, _MPInt, _mp_isinstance, lambda a, c, *r: pow(a, c, *r) if r else _mp_pow(a, c)
            b["range"] = lambda *a: range(*[int(x) if isinstance(x, mp.mpf) and x == int(x) else x for x in a])
        self.builtins = b
        self.inject = {}
        if mode == "mp":
            self.inject = {"_dv_lit": lambda t: tm.lit(t).num(), "_dv_div": _mp_div, "_dv_pow": _mp_pow, "_dv_fmt": lambda x: float(x) if isinstance(x, mp.mpf) else x, "_dv_bool": lambda x: x}
        if mode == "sym":
            self.inject = {
                "_dv_lit": tm.lit,
                "_dv_bool": lambda x: bool(x) if isinstance(x, tm.B) else x,
                "_dv_div": _div,
                "_dv_pow": _pow,
                "_dv_enter": enter or (lambda uid, names: None),
                "_dv_head": head or (lambda tok, loc: [loc[n] for n in tok]),
                "_dv_body": lambda tok: None,
                "_dv_exit": exit_ or (lambda tok: None),
                "_dv_iter": lambda it: it if isinstance(it, SymRange) else it,
                "_dv_symrange": SymRange,
            }

    def files(self):
        out = []
        for root, _, fs in os.walk(os.path.join(self.src, PKG)):
            out += [os.path.join(root, f) for f in fs if f.endswith(".py")]
        return sorted(out)

    def _find(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(self.inject)
        self.mods[name] = m
        src = open(path).read() if os.path.exists(path) else ""
        tree = ast.parse(src, path)
        if self.mode in ("sym", "mp"):
            tree = Transform(os.path.relpath(path, self.src), loops=self.mode == "sym").visit(tree)
            ast.fix_missing_locations(tree)
        try:
            # dataclasses & friends look modules up in sys.modules
            alias = f"_dv_{self.mode}__"
            exec(compile(tree, path, "exec", dont_inherit=True), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        if self.wrap:
            self.wrap(m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - (level - 1)])
            name = f"{base}.{name}" if name else base
        if name == "math":
            return self.math
        if name == "random":
            return self.random
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(f"{name}.{f}")
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[PKG]
        return importlib.__import__(name, {"__package__": None} if not level else globals, None, fromlist, 0)

    def all(self):
        for f in self.files():
            rel = os.path.relpath(f, self.src)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[: -len(".__init__")]
            self.load(rel)
        from .engine import global_roots, is_container, children

        self.empty_at_load = {p for p, o in global_roots(self).items() if is_container(o) and not children(o)}
        return self

    def get(self, path):
        """'openspace.math.linalg:Vector3D.cross' -> object (or None)"""
        mod, _, q = path.partition(":")
        try:
            o = self.load(mod)
        except ModuleNotFoundError:
            return None
        for p in q.split(".") if q else []:
            o = getattr(o, p, None)
            if o is None:
                return None
        return o


def _div(a, b):
    if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)):
        return tm.div(lift(a), lift(b))
    return a / b


def _pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)):
        return tm.power(lift(a), lift(b))
    return a ** b
