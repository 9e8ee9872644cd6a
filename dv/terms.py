"""Exact real-valued symbolic terms.

The verifier runs the *real* bytecode of /repo on these objects: every arithmetic
operator and every math.* call builds a node of a hash-consed DAG.  Constants are
exact rationals (plus the symbols pi and e); nothing is ever rounded.  A term with no
variables can be evaluated to PREC digits, which is how decisions on concrete inputs
are taken (noise-free replay).
"""
from fractions import Fraction
import hashlib
import math as _m
import mpmath as mp

PREC = 60
mp.mp.dps = PREC
EPS = mp.mpf(10) ** (-45)


class Unsupported(Exception):
    """a construct outside the verifier's reach (never a violation by itself)"""


class PathAbort(BaseException):
    """this path is finished on purpose (covered elsewhere)"""


# hooks the engine installs -------------------------------------------------
class _Hooks:
    ctx = None  # current path context (decide, domain) or None
    fold = None  # replaces a term of the executing code by an equal named one


HOOKS = _Hooks()


_TABLE = {}
_NEXT = [0]


class T:
    __slots__ = ("op", "args", "id", "_num", "isconst", "sort", "depth", "__weakref__")
    __array_priority__ = 1000

    def __new__(cls, op, *args):
        key = (op,) + tuple(a.id if isinstance(a, T) else ("k", a) for a in args)
        t = _TABLE.get(key)
        if t is not None:
            return t if HOOKS.fold is None else HOOKS.fold(t)
        t = object.__new__(cls)
        t.op = op
        t.args = args
        t.id = _NEXT[0]
        _NEXT[0] += 1
        t._num = None
        kids = [a for a in args if isinstance(a, T)]
        t.isconst = op != "v" and all(k.isconst for k in kids)
        t.depth = 1 + max([k.depth for k in kids], default=0)
        t.sort = _sort(op, args)
        _TABLE[key] = t
        return t if HOOKS.fold is None else HOOKS.fold(t)

    # ---- arithmetic -------------------------------------------------
    def __add__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(s, o)

    __radd__ = lambda s, o: add(lift(o), s) if lift(o) is not None else NotImplemented

    def __sub__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(s, mul(MINUS1, o))

    def __rsub__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, mul(MINUS1, s))

    def __mul__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(s, o)

    def __rmul__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, s)

    def __truediv__(s, o):
        o = lift(o)
        return NotImplemented if o is None else div(s, o)

    def __rtruediv__(s, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, s)

    def __pow__(s, o):
        return power(s, o)

    def __rpow__(s, o):
        return power(lift(o), s)

    def __neg__(s):
        return mul(MINUS1, s)

    def __pos__(s):
        return s

    def __abs__(s):
        if s.isconst:
            return s if s.num() >= 0 else -s
        return s if (s >= 0) else -s

    def __floordiv__(s, o):
        return floor(div(s, lift(o)))

    def __rfloordiv__(s, o):
        return floor(div(lift(o), s))

    def __mod__(s, o):
        o = lift(o)
        return s - o * floor(div(s, o))

    def __rmod__(s, o):
        return lift(o) % s

    def __divmod__(s, o):
        q = s // o
        return q, s - lift(o) * q

    def __round__(s, n=None):
        if s.op == "c" and n is None:
            return lift(round(s.args[0]))
        raise Unsupported("round() of a symbolic real")

    def __floor__(s):
        return floor(s)

    def __ceil__(s):
        return ceil(s)

    def __trunc__(s):
        return trunc(s)

    def __float__(s):
        if s.isconst:
            return float(s.num())
        raise Unsupported("float() of a symbolic real")

    def __int__(s):
        if s.isconst:
            return int(s.num())
        raise Unsupported("int() of a symbolic real")

    def __index__(s):
        if s.op == "c" and s.args[0].denominator == 1:
            return int(s.args[0])
        raise TypeError("symbolic real used as an index")

    def is_integer(s):
        return floor(s) == s

    # ---- comparison -------------------------------------------------
    def __lt__(s, o):
        return cmp_("<", s, o)

    def __le__(s, o):
        return cmp_("<=", s, o)

    def __gt__(s, o):
        return cmp_("<", o, s)

    def __ge__(s, o):
        return cmp_("<=", o, s)

    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        return cmp_("==", s, o)

    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return True
        return cmp_("!=", s, o)

    def __hash__(s):
        return s.id

    def __bool__(s):
        r = s != 0
        return bool(r)

    def __copy__(s):
        return s

    def __deepcopy__(s, memo):
        return s

    def __format__(s, spec):
        if s.isconst and spec:
            return format(float(s.num()), spec)
        return show(s)

    def __repr__(s):
        return "T<" + show(s, 6) + ">"

    @property
    def real(s):
        return s

    # ---- numeric ----------------------------------------------------
    def num(s):
        """value of a constant term to PREC digits"""
        if s._num is None:
            order = topo([s], stop=lambda t: t._num is not None)
            for t in order:
                if t._num is None:
                    t._num = _apply(t, [a._num if isinstance(a, T) else a for a in t.args], None)
        return s._num


def _sort(op, args):
    if op == "c":
        return "int" if args[0].denominator == 1 else "real"
    if op == "v":
        return args[1]
    if op in ("floor",):
        return "int"
    if op in ("+", "*"):
        return "int" if all(a.sort == "int" for a in args) else "real"
    if op == "pow":
        return "int" if args[0].sort == "int" and args[1] >= 0 else "real"
    return "real"


def const(fr):
    return T("c", Fraction(fr))


def var(name, sort="real"):
    return T("v", name, sort)


ZERO, ONE, MINUS1 = const(0), const(1), const(-1)
PI, E = T("pi"), T("e")
_FRESH = [0]


def fresh(prefix, sort="real"):
    _FRESH[0] += 1
    return var(f"{prefix}!{_FRESH[0]}", sort)


_PI_MULT = {}
for _q in (1, 2, 3, 4, 6, 8, 12, 24, 180, 360, 90, 720, 3600, 648000, 43200, 86400, 43082, 86164):
    for _p in (1, 2, 3, 4, 5):
        _PI_MULT.setdefault(_p * _m.pi / _q, Fraction(_p, _q))


def lift(o):
    if isinstance(o, T):
        return o
    if isinstance(o, bool):
        return const(int(o))
    if isinstance(o, int):
        return const(o)
    if isinstance(o, float):
        return lit(repr(o))
    if isinstance(o, Fraction):
        return const(o)
    if isinstance(o, mp.mpf):
        return const(Fraction(mp.nstr(o, PREC)))
    return None


def lit(text):
    """a float literal is read as the decimal number written; the nearest double to a
    simple multiple of pi is read as that multiple"""
    f = float(text)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite literal")
    digits = text.strip("-0.").replace(".", "").lower().split("e")[0]
    if len(digits) >= 15:
        for k, fr in _PI_MULT.items():
            if abs(abs(f) - k) <= 2e-16 * k:
                return const(fr if f > 0 else -fr) * PI
            if abs(abs(f) - 1 / k) <= 2e-16 / k:
                return const((1 if f > 0 else -1) / fr) / PI
        if abs(f - _m.e) < 5e-16:
            return E
    return const(Fraction(text))


def isc(t):
    return t.op == "c"


def add(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    if b.op == "c" and b.args[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return T("+", a, b)


def mul(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
    if b.op == "c":
        if b.args[0] == 0:
            return ZERO
        if b.args[0] == 1:
            return a
    if a.id > b.id:
        a, b = b, a
    return T("*", a, b)


def _domain(kind, cond):
    """record / check a definedness condition of the executing code"""
    if isinstance(cond, bool):
        if not cond:
            if kind == "div":
                raise ZeroDivisionError("division by zero")
            raise ValueError("math domain error")
        return
    if HOOKS.ctx is not None:
        HOOKS.ctx.domain(kind, cond)


def div(a, b):
    if type(a) is not T:
        a = lift(a)
    if type(b) is not T:
        b = lift(b)
    if b.op == "c":
        if b.args[0] == 0:
            raise ZeroDivisionError("division by zero")
        return mul(a, const(1 / b.args[0]))
    if b.isconst:
        _domain("div", not abs(b.num()) < EPS)
    else:
        _domain("div", B("!=", b, ZERO))
    if a.op == "c" and a.args[0] == 0:
        return ZERO
    return T("/", a, b)


def rdiv(a, b):
    """spec-level division: no obligation"""
    a, b = lift(a), lift(b)
    if b.op == "c":
        return mul(a, const(1 / b.args[0]))
    return T("/", a, b)


def power(a, b):
    a, b = lift(a), lift(b)
    if b.op == "c":
        q = b.args[0]
        if q.denominator == 1:
            n = int(q)
            if a.op == "c":
                if n < 0 and a.args[0] == 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return const(a.args[0] ** n)
            if n == 0:
                return ONE
            if n == 1:
                return a
            if n < 0:
                return div(ONE, power(a, const(-n)))
            if a.op == "e":
                return T("exp", b)
            return T("pow", a, n)
        if a.op == "e":
            return T("exp", b)
        if a.isconst:
            if a.num() < -EPS:
                raise Unsupported("fractional power of a negative number")
        else:
            _domain("pow", B("<=", ZERO, a) if q > 0 else B("<", ZERO, a))
        return _rpow(a, q)
    if a.op == "e":
        return exp(b)
    if b.isconst:
        raise Unsupported("irrational power")
    # a ** b = exp(b log a)
    return exp(b * log(a))


def _rpow(a, q):
    if q == Fraction(1, 2):
        return _sqrt(a)
    return T("rpow", a, q)


def _sqrt(a):
    if a.op == "c":
        f = a.args[0]
        if f >= 0:
            n, d = _m.isqrt(f.numerator), _m.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return const(Fraction(n, d))
    return T("sqrt", a)


def sqrt(a):
    a = lift(a)
    if a.isconst:
        v = a.num()
        _domain("sqrt", not v < -EPS)
        if abs(v) < EPS:
            return ZERO
    else:
        _domain("sqrt", B("<=", ZERO, a))
    return _sqrt(a)


def _fn1(name, at0=None):
    def f(a):
        a = lift(a)
        if at0 is not None and a.op == "c" and a.args[0] == 0:
            return const(at0)
        return T(name, a)

    f.__name__ = name
    return f


sin, cos, tan = _fn1("sin", 0), _fn1("cos", 1), _fn1("tan", 0)
exp = _fn1("exp", 0 + 1)
atan = lambda a: atan2(a, ONE)


def asin(a):
    a = lift(a)
    if a.isconst:
        _domain("asin", abs(a.num()) <= 1 + EPS)
        if a.op == "c" and a.args[0] == 0:
            return ZERO
        if a.op == "c" and abs(a.args[0]) == 1:
            return a * PI * const(Fraction(1, 2))
    else:
        _domain("asin", B("<=", MINUS1, a))
        _domain("asin", B("<=", a, ONE))
    return T("asin", a)


def acos(a):
    a = lift(a)
    if a.isconst:
        _domain("acos", abs(a.num()) <= 1 + EPS)
        if a.op == "c" and a.args[0] == 1:
            return ZERO
        if a.op == "c" and a.args[0] == -1:
            return PI
        if a.op == "c" and a.args[0] == 0:
            return PI * const(Fraction(1, 2))
    else:
        _domain("acos", B("<=", MINUS1, a))
        _domain("acos", B("<=", a, ONE))
    return T("acos", a)


def atan2(y, x):
    y, x = lift(y), lift(x)
    if y.op == "c" and y.args[0] == 0 and x.op == "c":
        return PI if x.args[0] < 0 else ZERO
    return T("atan2", y, x)


def log(a, base=None):
    a = lift(a)
    if base is not None:
        return log(a) / log(base)
    if a.isconst:
        _domain("log", a.num() > EPS)
        if a.op == "c" and a.args[0] == 1:
            return ZERO
        if a.op == "e":
            return ONE
    else:
        _domain("log", B("<", ZERO, a))
    return T("log", a)


def log10(a):
    return T("/", log(a), T("log", const(10)))


def floor(a):
    a = lift(a)
    if a.op == "c":
        return const(_m.floor(a.args[0]))
    if a.sort == "int":
        return a
    if a.isconst:
        v = a.num()
        f = mp.floor(v)
        if v - f > 1 - EPS:
            f += 1
        return const(int(f))
    return T("floor", a)


def ceil(a):
    return -floor(-lift(a))


def trunc(a):
    a = lift(a)
    return floor(a) if a >= 0 else ceil(a)


def radians(x):
    return lift(x) * PI / const(180)


def degrees(x):
    return lift(x) * const(180) / PI


def uf(name, *args):
    """uninterpreted function application (an opaque result of a contracted callee)"""
    return T("uf", name, *[lift(a) for a in args])


def wrap(x):
    """x reduced to [0, 2pi)"""
    x = lift(x)
    if x.isconst:
        two = 2 * PI
        return x - two * floor(div(x, two))
    return T("wrap", x)


UF_IMPL = {}


# ---- formulas ---------------------------------------------------------------
class B:
    """atomic formula; truth value is decided by the path context"""

    __slots__ = ("op", "a", "b")

    def __init__(s, op, a, b):
        s.op, s.a, s.b = op, a, b

    def key(s):
        return (s.op, s.a.id, s.b.id)

    def neg(s):
        if s.op == "<":
            return B("<=", s.b, s.a)
        if s.op == "<=":
            return B("<", s.b, s.a)
        return B("!=" if s.op == "==" else "==", s.a, s.b)

    # as a number: True is 1, False is 0 (decides the condition)
    def __int__(s):
        return 1 if s else 0

    __index__ = __int__

    def __float__(s):
        return float(int(s))

    def __add__(s, o):
        return int(s) + (int(o) if isinstance(o, B) else o)

    def __radd__(s, o):
        return o + int(s)

    def __sub__(s, o):
        return int(s) - (int(o) if isinstance(o, B) else o)

    def __rsub__(s, o):
        return o - int(s)

    def __mul__(s, o):
        return int(s) * (int(o) if isinstance(o, B) else o)

    def __rmul__(s, o):
        return o * int(s)

    def __neg__(s):
        return -int(s)

    def __bool__(s):
        if HOOKS.ctx is None:
            raise Unsupported("symbolic condition outside a path: " + repr(s))
        return HOOKS.ctx.decide(s)

    def __repr__(s):
        return f"{show(s.a)} {s.op} {show(s.b)}"

    def __and__(s, o):
        return bool(s) and bool(o)

    def __or__(s, o):
        return bool(s) or bool(o)

    def __eq__(s, o):
        return bool(s) == bool(o)

    def __hash__(s):
        return hash(s.key())


class Given(B):
    """a boolean attribute of the pre-state, decided where the code asks for it"""

    __slots__ = ()


def cmp_(op, a, b):
    a, b = lift(a), lift(b)
    if a is None or b is None:
        # comparison with +-inf / nan
        return NotImplemented
    if a is b:
        return op in ("<=", "==")
    if a.isconst and b.isconst:
        return holds_num(op, a.num(), b.num())
    return B(op, a, b)


def holds_num(op, x, y, tol=None):
    d = x - y
    if mp.isnan(d):
        return False
    t = EPS * (1 + abs(x)) if tol is None else tol
    if abs(d) <= t:
        return op in ("<=", "==")
    if op in ("<", "<="):
        return d < 0
    return op == "!="


# ---- traversal / evaluation -------------------------------------------------
def topo(roots, stop=lambda t: False):
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        if not stop(t):
            for a in t.args:
                if isinstance(a, T) and a.id not in seen:
                    stack.append((a, False))
    return out


NAN = mp.mpf("nan")


def _uf_num(name, args):
    impl = UF_IMPL.get(name)
    if impl is not None:
        return impl(*args)
    h = hashlib.sha256((name + "|" + "|".join(mp.nstr(a, 30) for a in args)).encode()).digest()
    return mp.mpf(int.from_bytes(h[:16], "big")) / mp.mpf(2) ** 127 + mp.mpf("0.25")


def _apply(t, a, env):
    op = t.op
    if op == "c":
        f = t.args[0]
        return mp.mpf(f.numerator) / f.denominator
    if op == "+":
        return a[0] + a[1]
    if op == "*":
        return a[0] * a[1]
    if op == "v":
        if env is None:
            return NAN
        return env.get(t.args[0], NAN)
    if op == "/":
        return NAN if a[1] == 0 else a[0] / a[1]
    if op == "pow":
        return a[0] ** a[1]
    if op == "pi":
        return +mp.pi
    if op == "e":
        return +mp.e
    if op == "uf":
        return NAN if any(mp.isnan(x) for x in a[1:]) else _uf_num(a[0], a[1:])
    x = a[0]
    if mp.isnan(x):
        return NAN
    if op == "sqrt":
        if x < 0:
            return mp.mpf(0) if x > -EPS else NAN
        return mp.sqrt(x)
    if op == "rpow":
        q = a[1]
        if x < 0 or (x == 0 and q < 0):
            return NAN
        return mp.root(x, q.denominator) ** q.numerator
    if op == "sin":
        return mp.sin(x)
    if op == "cos":
        return mp.cos(x)
    if op == "tan":
        return mp.tan(x)
    if op in ("asin", "acos"):
        if abs(x) > 1:
            if abs(x) > 1 + EPS:
                return NAN
            x = mp.mpf(1 if x > 0 else -1)
        return mp.asin(x) if op == "asin" else mp.acos(x)
    if op == "atan2":
        return NAN if mp.isnan(a[1]) else mp.atan2(x, a[1])
    if op == "exp":
        return mp.exp(x) if x < 1e6 else NAN
    if op == "log":
        return mp.log(x) if x > 0 else NAN
    if op == "floor":
        f = mp.floor(x)
        return f + 1 if x - f > 1 - EPS else f
    if op == "wrap":
        tp = 2 * mp.pi
        r = x - tp * mp.floor(x / tp)
        return mp.mpf(0) if tp - r < EPS else r
    raise Unsupported("eval " + op)


def evaluate(roots, env, memo=None):
    memo = {} if memo is None else memo
    for t in topo(roots, stop=lambda t: t.id in memo or (t.isconst and t._num is not None)):
        if t.id not in memo:
            if t.isconst:
                memo[t.id] = t.num()
            else:
                memo[t.id] = _apply(t, [memo[x.id] if isinstance(x, T) else x for x in t.args], env)
    return [memo[r.id] for r in roots]


def variables(roots):
    return {t for t in topo(roots) if t.op == "v"}


def substitute(root, mapping, memo=None):
    """rebuild with some nodes (by id) replaced; no domain obligations"""
    memo = {} if memo is None else memo
    for t in topo([root], stop=lambda t: t.id in memo or t.id in mapping):
        if t.id in memo:
            continue
        if t.id in mapping:
            memo[t.id] = mapping[t.id]
            continue
        kids = [memo[a.id] if isinstance(a, T) else a for a in t.args]
        memo[t.id] = t if all(k is a for k, a in zip(kids, t.args)) else rebuild(t.op, kids)
    return memo[root.id]


def rebuild(op, k):
    if op == "+":
        return add(*k)
    if op == "*":
        return mul(*k)
    if op == "/":
        return rdiv(*k) if not (k[1].op == "c" and k[1].args[0] == 0) else T("/", *k)
    if op == "pow":
        return k[0] if k[1] == 1 else (const(k[0].args[0] ** k[1]) if k[0].op == "c" else T("pow", *k))
    if op == "sqrt":
        return _sqrt(k[0])
    if op == "floor":
        return floor(k[0])
    if op == "wrap":
        return wrap(k[0])
    if op == "atan2":
        return atan2(*k)
    if op in ("sin", "tan"):
        return {"sin": sin, "tan": tan}[op](k[0])
    if op == "cos":
        return cos(k[0])
    return T(op, *k)


def diff(f, x, memo=None):
    """exact symbolic derivative of a term (used by lemmas)"""
    memo = {} if memo is None else memo
    for t in topo([f]):
        if t.id in memo:
            continue
        o, a = t.op, t.args
        d = lambda i: memo[a[i].id]
        if t.isconst or o in ("c", "pi", "e"):
            r = ZERO
        elif o == "v":
            r = ONE if t is x else ZERO
        elif o == "+":
            r = d(0) + d(1)
        elif o == "*":
            r = d(0) * a[1] + a[0] * d(1)
        elif o == "/":
            r = rdiv(d(0) * a[1] - a[0] * d(1), a[1] * a[1])
        elif o == "pow":
            r = const(a[1]) * rebuild("pow", [a[0], a[1] - 1]) * d(0) if a[1] > 1 else d(0)
        elif o == "sqrt":
            r = rdiv(d(0), 2 * t)
        elif o == "sin":
            r = cos(a[0]) * d(0)
        elif o == "cos":
            r = -sin(a[0]) * d(0)
        elif o == "exp":
            r = t * d(0)
        elif o == "log":
            r = rdiv(d(0), a[0])
        elif o == "atan2":
            r = rdiv(d(0) * a[1] - a[0] * d(1), a[0] * a[0] + a[1] * a[1])
        elif o == "wrap":
            r = d(0)
        elif o == "asin":
            r = rdiv(d(0), _sqrt(1 - a[0] * a[0]))
        elif o == "rpow":
            r = const(a[1]) * T("rpow", a[0], a[1] - 1) * d(0)
        else:
            raise Unsupported("derivative of " + o)
        memo[t.id] = r
    return memo[f.id]


def show(t, depth=12):
    if t.op == "c":
        f = t.args[0]
        return str(f) if f.denominator == 1 or len(str(f)) < 14 else repr(float(f))
    if t.op == "v":
        return t.args[0]
    if t.op in ("pi", "e"):
        return t.op
    if depth == 0:
        return "..."
    k = [show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args]
    if t.op in ("+", "*", "/"):
        s = "(" + f" {t.op} ".join(k) + ")"
    elif t.op == "pow":
        s = f"{k[0]}**{k[1]}"
    else:
        s = f"{t.op}({', '.join(k)})"
    return s if len(s) < 2000 else s[:2000] + "~"
