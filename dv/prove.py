"""Discharging obligations: interval/sign analysis, the ring prover, angle and square
rules, then z3 (and, on request, cvc5) on the atoms with instantiated axioms."""
import math
import time
from fractions import Fraction
import mpmath as mp
import z3
from .terms import (T, B, const, ZERO, ONE, MINUS1, PI, Unsupported, evaluate, holds_num, topo, variables, rdiv,
                    show, EPS, sin, cos, lift, substitute, PREC, HOOKS, _sqrt)
from .ring import Norm, Budget, RF, rf_add, rf_mul, rf_inv

INF = mp.inf


def land(*g):
    return ("and", [x for y in g for x in (y if isinstance(y, (list, tuple)) and not (y and isinstance(y[0], str)) else [y])])


def lor(*g):
    return ("or", list(g))


def imp(h, g):
    return ("or", [negate(h), g])


def eq(a, b):
    return B("==", lift(a), lift(b))


def ne(a, b):
    return B("!=", lift(a), lift(b))


def le(a, b):
    return B("<=", lift(a), lift(b))


def lt(a, b):
    return B("<", lift(a), lift(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def negate(g):
    if isinstance(g, B):
        return g.neg()
    if isinstance(g, bool):
        return not g
    return ("or" if g[0] == "and" else "and", [negate(x) for x in g[1]])


def formula_terms(g):
    if isinstance(g, B):
        return [g.a, g.b]
    if isinstance(g, bool):
        return []
    return [t for x in g[1] for t in formula_terms(x)]


def truth(g, env, memo=None, tol=None):
    """numeric truth value; None when undefined"""
    if isinstance(g, bool):
        return g
    if isinstance(g, B):
        x, y = evaluate([g.a, g.b], env, memo)
        if mp.isnan(x) or mp.isnan(y):
            return None
        r = holds_num(g.op, x, y, None if tol is None else tol * (abs(x) + abs(y) + mp.mpf(10) ** -12))
        if r is False and g.op in ("==", "<=") and tol is None:
            # cancellation of large terms? a residue that vanishes with more digits is zero
            with mp.workdps(2 * mp.mp.dps):
                x2, y2 = evaluate([g.a, g.b], env, {})
                if abs(x2 - y2) <= abs(x - y) * mp.mpf(10) ** -12:
                    return True
        return r
    rs = [truth(x, env, memo, tol) for x in g[1]]
    if g[0] == "and":
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    if any(r is True for r in rs):
        return True
    return None if any(r is None for r in rs) else False


def fkey(f):
    if isinstance(f, B):
        return f.key()
    if isinstance(f, tuple):
        return (f[0],) + tuple(fkey(x) for x in f[1])
    return f


def fshow(g):
    if isinstance(g, (B, bool)):
        return repr(g)
    return "(" + f" {g[0]} ".join(fshow(x) for x in g[1]) + ")"


def zfrac(x, out=0):
    """an interval end point as a z3 rational, moved outwards past rounding"""
    from fractions import Fraction

    if x == 0:
        return z3.RealVal(0)
    x = x + out * abs(x) * mp.mpf(10) ** -30
    m, e = x.man_exp if hasattr(x, "man_exp") else mp.mpf(x).man_exp
    f = Fraction(int(m)) * (Fraction(2) ** int(e))
    return z3.RealVal(str(f))


class Interval:
    __slots__ = ("lo", "hi", "ls", "hs")

    def __init__(s, lo=-INF, hi=INF, ls=False, hs=False):
        s.lo, s.hi, s.ls, s.hs = lo, hi, ls, hs

    def meet(s, o):
        lo, ls = (s.lo, s.ls) if s.lo > o.lo else (o.lo, o.ls) if o.lo > s.lo else (s.lo, s.ls or o.ls)
        hi, hs = (s.hi, s.hs) if s.hi < o.hi else (o.hi, o.hs) if o.hi < s.hi else (s.hi, s.hs or o.hs)
        return Interval(lo, hi, ls, hs)

    def sign(s):
        if s.lo > 0 or (s.lo == 0 and s.ls):
            return "+"
        if s.hi < 0 or (s.hi == 0 and s.hs):
            return "-"
        if s.lo == 0:
            return "0+"
        if s.hi == 0:
            return "0-"
        return None

    def __repr__(s):
        return f"{'(' if s.ls else '['}{mp.nstr(s.lo, 8)},{mp.nstr(s.hi, 8)}{')' if s.hs else ']'}"


def _clean(x):
    # snap values that are an exact zero up to evaluation noise
    return mp.mpf(0) if not mp.isinf(x) and abs(x) < EPS else x


class Signs:
    """sound interval analysis over a set of facts (all facts hold on the path)"""

    def __init__(s, facts):
        s.bounds = {}
        s.nonzero = set()
        s.memo = {}
        s.cmpdiff = []
        for f in facts:
            if isinstance(f, B):
                s.fact(f)
            elif isinstance(f, tuple) and f[0] == "and":
                for x in f[1]:
                    if isinstance(x, B):
                        s.fact(x)

    def _put(s, t, iv):
        s.bounds[t.id] = s.bounds[t.id].meet(iv) if t.id in s.bounds else iv
        s.memo.clear()

    def fact(s, f):
        a, b, op = f.a, f.b, f.op
        if op == "!=":
            if b.op == "c" and b.args[0] == 0:
                s.nonzero.add(a.id)
            if a.op == "c" and a.args[0] == 0:
                s.nonzero.add(b.id)
            return
        if b.isconst:
            v = b.num()
            if op in ("<", "<="):
                s._put(a, Interval(hi=v, hs=op == "<"))
            else:
                s._put(a, Interval(v, v))
        if a.isconst:
            v = a.num()
            if op in ("<", "<="):
                s._put(b, Interval(lo=v, ls=op == "<"))
            else:
                s._put(b, Interval(v, v))
        if not a.isconst and not b.isconst:
            d = b - a
            if op in ("<", "<="):
                s._put(d, Interval(lo=mp.mpf(0), ls=op == "<"))
                s._put(a - b, Interval(hi=mp.mpf(0), hs=op == "<"))
                # a < b with a known lower bound gives b a lower bound (one level)
                ia, ib = s.get(a), s.get(b)
                if ia.lo > -INF:
                    s._put(b, Interval(lo=ia.lo, ls=ia.ls or op == "<"))
                if ib.hi < INF:
                    s._put(a, Interval(hi=ib.hi, hs=ib.hs or op == "<"))
            else:
                s._put(d, Interval(mp.mpf(0), mp.mpf(0)))
                s._put(a - b, Interval(mp.mpf(0), mp.mpf(0)))

    def get(s, t):
        if t.id in s.memo:
            return s.memo[t.id]
        for u in topo([t], stop=lambda u: u.id in s.memo):
            if u.id not in s.memo:
                iv = s._get(u)
                if u.id in s.bounds:
                    iv = iv.meet(s.bounds[u.id])
                iv.lo, iv.hi = _clean(iv.lo), _clean(iv.hi)
                if u.id in s.nonzero:
                    if iv.lo == 0:
                        iv.ls = True
                    if iv.hi == 0:
                        iv.hs = True
                s.memo[u.id] = iv
        return s.memo[t.id]

    def _get(s, t):
        op, a = t.op, t.args
        if t.isconst:
            v = t.num()
            if mp.isnan(v):
                return Interval()
            return Interval(v, v)
        g = lambda i: s.memo[a[i].id]
        if op == "v":
            return Interval()
        if op == "+":
            x, y = g(0), g(1)
            return Interval(x.lo + y.lo if x.lo > -INF and y.lo > -INF else -INF, x.hi + y.hi if x.hi < INF and y.hi < INF else INF, x.ls or y.ls, x.hs or y.hs)
        if op == "*":
            if a[0] is a[1]:
                return s._square(g(0))
            return s._mul(g(0), g(1), a)
        if op == "pow":
            x = g(0)
            if a[1] % 2 == 0:
                r = s._square(x)
                if a[1] == 2:
                    return r
                return Interval(r.lo ** (a[1] // 2), r.hi ** (a[1] // 2) if r.hi < INF else INF, r.ls, r.hs)
            if x.lo >= 0:
                return Interval(x.lo ** a[1], x.hi ** a[1] if x.hi < INF else INF, x.ls, x.hs)
            return Interval()
        if op == "/":
            x, y = g(0), g(1)
            if y.sign() in ("+", "-"):
                return s._mul(x, s._inv(y), None)
            sg = y.sign()
            if sg == "0+":  # nonzero by the domain obligation of the division itself
                return s._mul(x, Interval(1 / y.hi if y.hi < INF else mp.mpf(0), INF, True, False), None)
            if sg == "0-":
                return s._mul(x, Interval(-INF, 1 / y.lo if y.lo > -INF else mp.mpf(0), False, True), None)
            return Interval()
        if op == "sqrt":
            x = g(0)
            lo = mp.sqrt(x.lo) if x.lo > 0 else mp.mpf(0)
            return Interval(lo, mp.sqrt(x.hi) if x.hi < INF and x.hi > 0 else (INF if x.hi == INF else mp.mpf(0)), x.lo > 0 and x.ls or (x.lo == 0 and x.ls), x.hs)
        if op == "rpow":
            x = g(0)
            sg = x.sign()
            return Interval(lo=mp.mpf(0), ls=sg == "+" or a[1] < 0)
        if op in ("sin", "cos"):
            x = g(0)
            r = Interval(mp.mpf(-1), mp.mpf(1))
            h = mp.pi / 2
            if op == "cos":
                if x.lo >= -h - EPS and x.hi <= h + EPS:
                    strict = (x.ls or x.lo > -h + EPS) and (x.hs or x.hi < h - EPS)
                    r = Interval(mp.mpf(0), mp.mpf(1), strict, False)
            else:
                if x.lo >= -EPS and x.hi <= mp.pi + EPS:
                    strict = (x.ls or x.lo > EPS) and (x.hs or x.hi < mp.pi - EPS)
                    r = Interval(mp.mpf(0), mp.mpf(1), strict, False)
                elif x.lo >= -mp.pi - EPS and x.hi <= EPS:
                    strict = (x.ls or x.lo > -mp.pi + EPS) and (x.hs or x.hi < -EPS)
                    r = Interval(mp.mpf(-1), mp.mpf(0), False, strict)
            return r
        if op == "asin":
            x = g(0)
            lo = mp.asin(x.lo) if x.lo > -1 else -mp.pi / 2
            hi = mp.asin(x.hi) if x.hi < 1 else mp.pi / 2
            return Interval(lo, hi, x.ls and x.lo >= -1, x.hs and x.hi <= 1)
        if op == "acos":
            x = g(0)
            lo = mp.acos(x.hi) if x.hi < 1 else mp.mpf(0)
            hi = mp.acos(x.lo) if x.lo > -1 else +mp.pi
            return Interval(lo, hi, x.hs and x.hi <= 1, x.ls and x.lo >= -1)
        if op == "atan2":
            y, x = g(0), g(1)
            lo, hi, ls, hs = -mp.pi, +mp.pi, True, False
            if y.lo >= 0:
                lo, ls = mp.mpf(0), y.sign() == "+"
            if y.hi < 0 or (y.hi == 0 and y.hs):
                hi, hs = mp.mpf(0), True
            if x.lo > 0 or (x.lo == 0 and x.ls):
                h = mp.pi / 2
                if lo < -h:
                    lo, ls = -h, True
                if hi > h:
                    hi, hs = h, True
            elif x.lo >= 0:
                h = mp.pi / 2
                if lo < -h:
                    lo, ls = -h, False
                if hi > h:
                    hi, hs = h, False
            return Interval(lo, hi, ls, hs)
        if op == "exp":
            x = g(0)
            return Interval(mp.exp(x.lo) if x.lo > -INF else mp.mpf(0), mp.exp(x.hi) if x.hi < 1000 else INF, x.lo == -INF or x.ls, x.hs)
        if op == "log":
            x = g(0)
            return Interval(mp.log(x.lo) if x.lo > 0 else -INF, mp.log(x.hi) if x.hi < INF and x.hi > 0 else INF, x.ls, x.hs)
        if op == "floor":
            x = g(0)
            return Interval(mp.floor(x.lo) if x.lo > -INF else -INF, mp.floor(x.hi) if x.hi < INF else INF)
        if op == "wrap":
            return Interval(mp.mpf(0), 2 * mp.pi, False, True)
        return Interval()

    @staticmethod
    def _square(x):
        if x.lo >= 0:
            return Interval(x.lo ** 2, x.hi ** 2 if x.hi < INF else INF, x.ls, x.hs)
        if x.hi <= 0:
            return Interval(x.hi ** 2, x.lo ** 2 if x.lo > -INF else INF, x.hs, x.ls)
        m = max(-x.lo, x.hi)
        if -x.lo == x.hi:
            strict = x.ls and x.hs
        else:
            strict = x.ls if m == -x.lo else x.hs
        return Interval(mp.mpf(0), m ** 2 if m < INF else INF, False, strict)

    @staticmethod
    def _inv(y):
        if y.lo > 0 or (y.lo == 0 and y.ls):
            return Interval(1 / y.hi if y.hi < INF else mp.mpf(0), 1 / y.lo if y.lo > 0 else INF, y.hs or y.hi == INF, y.ls)
        return Interval(1 / y.hi if y.hi < 0 else -INF, 1 / y.lo if y.lo > -INF else mp.mpf(0), y.hs, y.ls or y.lo == -INF)

    @staticmethod
    def _mul(x, y, a):
        sx, sy = x.sign(), y.sign()
        if x.lo >= 0 and y.lo >= 0:
            hi = INF if (x.hi == INF or y.hi == INF) else x.hi * y.hi
            if x.hi == 0 or y.hi == 0:
                hi = mp.mpf(0)
            lo = x.lo * y.lo
            ls = (x.ls or y.ls) if lo > 0 else (sx == "+" and sy == "+")
            return Interval(lo, hi, ls, x.hs or y.hs)
        if x.hi <= 0 and y.hi <= 0:
            return Signs._mul(Interval(-x.hi, -x.lo, x.hs, x.ls), Interval(-y.hi, -y.lo, y.hs, y.ls), None)
        if x.hi <= 0 and y.lo >= 0:
            r = Signs._mul(Interval(-x.hi, -x.lo, x.hs, x.ls), y, None)
            return Interval(-r.hi, -r.lo, r.hs, r.ls)
        if y.hi <= 0 and x.lo >= 0:
            return Signs._mul(y, x, None)
        vals = []
        for p, ps in ((x.lo, x.ls), (x.hi, x.hs)):
            for q, qs in ((y.lo, y.ls), (y.hi, y.hs)):
                if p == 0 or q == 0:
                    vals.append((mp.mpf(0), False))
                else:
                    vals.append((p * q, ps or qs))
        lo = min(v for v, _ in vals)
        hi = max(v for v, _ in vals)
        return Interval(lo, hi, all(st for v, st in vals if v == lo), all(st for v, st in vals if v == hi))

    def sign(s, t):
        return s.get(t).sign()


def _quasi(t, v):
    """t as an integer-quasi-periodic expression of the single int variable v: period N such
    that t(v+N)-t(v) is constant, or None"""
    op, a = t.op, t.args
    if op == "c":
        return 1
    if op == "v":
        return 1 if t is v else None
    if op == "+":
        x, y = _quasi(a[0], v), _quasi(a[1], v)
        return None if x is None or y is None else math.lcm(x, y)
    if op == "*":
        if a[0].op == "c":
            return _quasi(a[1], v)
        if a[1].op == "c":
            return _quasi(a[0], v)
        return None
    if op == "/":
        return _quasi(a[0], v) if a[1].op == "c" and a[1].args[0] != 0 else None
    if op == "floor":
        n = _quasi(a[0], v)
        if n is None:
            return None
        d = _qeval(a[0], v, n) - _qeval(a[0], v, 0)
        return n * d.denominator
    return None


def _qeval(t, v, x):
    op, a = t.op, t.args
    if op == "c":
        return Fraction(a[0])
    if op == "v":
        return Fraction(x)
    if op == "+":
        return _qeval(a[0], v, x) + _qeval(a[1], v, x)
    if op == "*":
        return _qeval(a[0], v, x) * _qeval(a[1], v, x)
    if op == "/":
        return _qeval(a[0], v, x) / _qeval(a[1], v, x)
    if op == "floor":
        return Fraction(math.floor(_qeval(a[0], v, x)))
    raise Unsupported(op)


def _sgn(f):
    return (f > 0) - (f < 0)


class Result:
    __slots__ = ("status", "how", "env", "secs", "detail")

    def __init__(s, status, how="", env=None, secs=0.0, detail=""):
        s.status, s.how, s.env, s.secs, s.detail = status, how, env, secs, detail

    def __repr__(s):
        return f"{s.status}({s.how})"


class Prover:
    """proves goals under hypotheses (precondition + path condition + assumed facts)"""

    scale = 1  # multiplies the time limits (second attempts)

    def __init__(s, hyps, samples, rules=(), facts=(), timeout=20.0, z3ms=4000, seed=1):
        s.hyps = list(hyps) + list(facts)
        s.samples = samples  # environments satisfying hyps (may be empty)
        s.timeout = timeout * Prover.scale
        s.z3ms = z3ms * Prover.scale
        s.seed = seed
        s.subst = []
        flat = []
        for h in s.hyps:
            flat.extend(h[1] if isinstance(h, tuple) and h[0] == "and" else [h])
        s.flat = flat
        s.signs = Signs(flat)
        s.rules = list(rules)
        # equalities with a bare variable on one side become substitutions
        done = set()
        for h in flat:
            if isinstance(h, B) and h.op == "==":
                for x, y in ((h.a, h.b), (h.b, h.a)):
                    if x.op == "v" and x.id not in done and x not in variables([y]):
                        if not any(variables([r]) & {x} for _, r in s.rules):
                            s.rules.append((x, y))
                            done.add(x.id)
                            break
        s._norms = {}
        s.posmemo = {}
        s.depth = 0
        s.log = []
        s.solver_secs = 0.0
        s._z3base = None

    # -- sign oracle with z3 fallback for small terms
    def sign(s, t):
        r = s.signs.sign(t)
        if r in ("+", "-"):
            return r
        if t.id in s.posmemo:
            return s.posmemo[t.id]
        s.posmemo[t.id] = r
        vals = []
        for env in s.samples[:6]:
            v = evaluate([t], env)[0]
            if not mp.isnan(v):
                vals.append(v)
        if not vals or s.depth > 2 or len(topo([t])) > 120:
            return r
        s.depth += 1
        try:
            if all(v > 0 for v in vals):
                if s.z3_prove(B("<", ZERO, t), 800):
                    r = "+"
                elif r is None and s.z3_prove(B("<=", ZERO, t), 500):
                    r = "0+"
            elif all(v < 0 for v in vals):
                if s.z3_prove(B("<", t, ZERO), 800):
                    r = "-"
            elif r is None and all(v >= 0 for v in vals) and s.z3_prove(B("<=", ZERO, t), 500):
                r = "0+"
        finally:
            s.depth -= 1
        s.posmemo[t.id] = r
        return r

    def norm(s, expand):
        n = s._norms.get(expand)
        if n is None:
            n = Norm(s.samples or [{}], sign=s.sign, rules=s.rules, expand=expand)
            s._norms[expand] = n
        return n

    # -- public
    def prove(s, g):
        t0 = time.time()
        saved = HOOKS.ctx
        HOOKS.ctx = None
        try:
            r = s._prove(g, t0 + s.timeout)
        finally:
            HOOKS.ctx = saved
        r.secs = time.time() - t0
        return r

    def refute(s, g):
        for env in s.samples:
            if truth(g, env) is False:
                return env
        return None

    def _prove(s, g, deadline):
        if isinstance(g, bool):
            return Result("proved" if g else "refuted", "const")
        if isinstance(g, tuple):
            env = s.refute(g)
            if env is not None:
                return Result("refuted", "sample", env)
            if g[0] == "and":
                hows = []
                for x in g[1]:
                    r = s._prove(x, deadline)
                    if r.status != "proved":
                        return r
                    hows.append(r.how)
                return Result("proved", "+".join(sorted(set(hows))))
            k = fkey(g)
            if any(isinstance(h, tuple) and fkey(h) == k for h in s.hyps):
                return Result("proved", "fact")
            if s.z3_prove(g):
                return Result("proved", "z3")
            for x in g[1]:
                r = s._prove(x, deadline)
                if r.status == "proved":
                    return r
            return Result("unknown", "or")
        if g.a is g.b and g.op in ("==", "<="):
            return Result("proved", "identical")
        env = s.refute(g)
        if env is not None:
            return Result("refuted", "sample", env)
        if g.op == "==":
            return s.prove_eq(g, deadline)
        return s.prove_order(g, deadline)

    def prove_order(s, g, deadline):
        d = g.b - g.a
        sg = s.signs.sign(d)
        if g.op == "<" and sg == "+" or g.op == "<=" and sg in ("+", "0+") or g.op == "!=" and sg in ("+", "-"):
            return Result("proved", "interval")
        if g.op == "!=" and (d.id in s.signs.nonzero or (g.a - g.b).id in s.signs.nonzero):
            return Result("proved", "fact")
        if g.op == "!=":
            # a product is nonzero when its factors are
            for t, o in ((g.a, g.b), (g.b, g.a)):
                if o.op == "c" and o.args[0] == 0 and t.op in ("*", "/", "sqrt", "pow", "rpow"):
                    parts = [x for x in t.args if isinstance(x, T)]
                    if all(s._prove(B("!=", x, ZERO), deadline).status == "proved" for x in parts):
                        return Result("proved", "factors")
        # compare after normalisation (cancels common parts)
        try:
            n = s.norm(False)
            dn = n.term(n.rf(d))
            sg = s.signs.sign(dn)
            if g.op == "<" and sg == "+" or g.op == "<=" and sg in ("+", "0+") or g.op == "!=" and sg in ("+", "-"):
                if s.side_ok(n, deadline):
                    return Result("proved", "ring+interval")
            if g.op == "<=" and n.zero(n.rf(d)) and s.side_ok(n, deadline):
                return Result("proved", "ring")
        except (Budget, Unsupported):
            dn = None
        if s.z3_prove(g):
            return Result("proved", "z3")
        if dn is not None and dn is not d:
            if g.op == "!=":
                q = B("!=", dn, ZERO)
            else:
                q = B(g.op, ZERO, dn)
            if s.z3_prove(q) and s.side_ok(s.norm(False), deadline):
                return Result("proved", "ring+z3")
        return Result("unknown", "order")

    def side_ok(s, n, deadline):
        """discharge side conditions the ring prover relied on"""
        ok = True
        for k, b in list(n.side.items()):
            if n.side.get(k) is True:
                continue
            if b is True:
                continue
            if time.time() > deadline + 10:
                return False
            s.depth += 1
            try:
                if s.depth > 3:
                    return False
                r = s._prove(b, deadline) if s.depth < 3 else Result("unknown")
            finally:
                s.depth -= 1
            if r.status == "proved":
                n.side[k] = True
            else:
                ok = False
                s.log.append("side condition not proved: " + repr(b)[:300])
        return ok

    def prove_eq(s, g, deadline):
        d = g.a - g.b
        why = []
        # zero-valued hypothesis
        iv = s.signs.get(d)
        if iv.lo == 0 == iv.hi:
            return Result("proved", "fact")
        for expand in (False, True, "mono"):
            try:
                n = s.norm(expand)
                n.deadline = min(deadline, time.time() + s.timeout)
                if expand is True:
                    n.seed(d)
                if n.zero(n.rf(d)):
                    if s.side_ok(n, deadline):
                        return Result("proved", "ring")
                    why.append("side")
                    break
            except Budget as e:
                why.append(f"budget {e}")
            except Unsupported as e:
                why.append(str(e))
                break
            if not any(t.op in ("sin", "cos", "tan") for t in topo([d])):
                break
        # angle rule: equal sine and cosine, and closer than a full turn
        if any(t.op in ("atan2", "asin", "acos", "wrap", "floor") for t in topo([d])):
            if s.scaled_angle_rule(d, deadline) or s.angle_rule(g, deadline):
                return Result("proved", "angle")
        if s.wrap_rule(g, deadline):
            return Result("proved", "wrap")
        # square rule
        if s.depth < 2 and any(t.op in ("sqrt", "rpow") for t in topo([d])):
            sa, sb = s.sign(g.a), s.sign(g.b)
            if sa in ("+", "0+") and sb in ("+", "0+") or sa in ("-", "0-") and sb in ("-", "0-"):
                s.depth += 1
                try:
                    r = s._prove(B("==", g.a * g.a, g.b * g.b), deadline)
                finally:
                    s.depth -= 1
                if r.status == "proved":
                    return Result("proved", "square+" + r.how)
        if s.periodic_rule(d):
            return Result("proved", "periodic")
        if s.z3_prove(g):
            return Result("proved", "z3")
        try:
            n = s.norm(False)
            dn = n.term(n.rf(d))
            if s.z3_prove(B("==", dn, ZERO)) and s.side_ok(n, deadline):
                return Result("proved", "ring+z3")
        except (Budget, Unsupported):
            pass
        return Result("unknown", "; ".join(why) or "eq", detail="; ".join(s.log[-3:]))

    def periodic_rule(s, d):
        """d == 0 for an integer variable under floors: d is periodic, check one full period"""
        vs = [v for v in variables([d]) if v.sort == "int"]
        if not any(t.op == "floor" for t in topo([d])):
            return False
        try:
            n = s.norm(False)
            dn = n.term(n.rf(d))
            if any(b is not True for b in n.side.values()):
                pass
        except (Budget, Unsupported):
            return False
        vs = variables([dn])
        if len(vs) != 1:
            return False
        (v,) = vs
        if v.sort != "int":
            return False
        N = _quasi(dn, v)
        if N is None or N > 4000 or _qeval(dn, v, N) != _qeval(dn, v, 0):
            return False
        hs = []
        for h in s.flat:
            if isinstance(h, B) and variables([h.a, h.b]) == {v}:
                e = h.a - h.b
                M = _quasi(e, v)
                if M is not None and N * M // math.gcd(N, M) <= 4000 and _qeval(e, v, M) == _qeval(e, v, 0):
                    hs.append((h.op, e))
                    N = math.lcm(N, M)
        for r in range(N):
            if all(holds_num(op, mp.mpf(0) + _sgn(_qeval(e, v, r)), mp.mpf(0)) for op, e in hs) and _qeval(dn, v, r) != 0:
                return False
        return True

    def angle_rule(s, g, deadline):
        if s.depth >= 2:
            return False
        s.depth += 1
        try:
            d = g.a - g.b
            tp = 2 * PI
            if s._prove(B("<", d, tp), deadline).status != "proved":
                return False
            if s._prove(B("<", -tp, d), deadline).status != "proved":
                return False
            for expand in (False, True, "mono"):
                try:
                    n = s.norm(expand)
                    n.deadline = min(deadline, time.time() + s.timeout)
                    sa, ca = n.trig(g.a)
                    sb, cb = n.trig(g.b)
                    if n.zero(rf_add(sa, sb, -1)) and n.zero(rf_add(ca, cb, -1)) and s.side_ok(n, deadline):
                        return True
                except (Budget, Unsupported):
                    pass
            return False
        finally:
            s.depth -= 1

    def scaled_angle_rule(s, d, deadline):
        """d = p*angle + q with p nonzero: the angle rule on angle == -q/p"""
        if s.depth >= 2:
            return False
        try:
            n = s.norm(False)
            r = n.reduce(n.rf(d))
        except (Budget, Unsupported):
            return False
        ids = {i for m in r.num for i, _ in m if n.atoms[i].term is not None and n.atoms[i].term.op in ("atan2", "asin", "acos", "wrap")}
        for i in ids:
            p, q, ok = {}, {}, True
            for m, c in r.num.items():
                e = dict(m).get(i, 0)
                if e == 1:
                    p[tuple(x for x in m if x[0] != i)] = c
                elif e == 0:
                    q[m] = c
                else:
                    ok = False
            if not ok or not p:
                continue
            if any(i in dict(m) for k, (pp, e) in r.den.items() for m in pp):
                continue
            try:
                pt = n.term(RF(p))
                if s._prove(B("!=", pt, ZERO), deadline).status != "proved":
                    continue
                b = n.term(n.reduce(rf_mul(RF({m: -c for m, c in q.items()}), rf_inv(RF(p)))))
                if s.side_ok(n, deadline) and s.angle_rule(B("==", n.atoms[i].term, b), deadline):
                    return True
            except (Budget, Unsupported, ZeroDivisionError):
                continue
        return False

    def wrap_rule(s, g, deadline):
        for a, b in ((g.a, g.b), (g.b, g.a)):
            if b.op == "wrap" and s.depth < 2:
                s.depth += 1
                try:
                    k = rdiv(a - b.args[0], 2 * PI)
                    n = s.norm(False)
                    r = n.reduce(n.rf(k))
                    if r.den:
                        continue
                    if all(Fraction(c).denominator == 1 and all(e > 0 and n.atoms[i].term.sort == "int" for i, e in m) for m, c in r.num.items()):
                        if s._prove(B("<=", ZERO, a), deadline).status == "proved" and s._prove(B("<", a, 2 * PI), deadline).status == "proved":
                            return True
                except (Budget, Unsupported):
                    pass
                finally:
                    s.depth -= 1
        return False

    # -- z3 -----------------------------------------------------------------
    def z3_prove(s, g, ms=None):
        ms = ms or s.z3ms
        roots = formula_terms(g)
        nodes = topo(roots)
        if len(nodes) > 600:
            return False
        rel = s.relevant(roots)
        vs = {v.id for v in variables(roots)}
        near = [h for h in rel if {v.id for v in variables(formula_terms(h))} <= vs]
        if len(near) < len(rel) and s.z3_query(g, near, min(ms, 1000)):
            return True
        return s.z3_query(g, rel, ms)

    def z3_query(s, g, hyps, ms):
        t0 = time.time()
        try:
            enc = Z3Enc(s.rules)
            hyp = [enc.formula(h) for h in hyps]
            goal = enc.formula(g)
            sol = z3.Solver()
            sol.set("timeout", int(ms))
            sol.set("random_seed", s.seed)
            for h in hyp:
                sol.add(h)
            for a in enc.axioms():
                sol.add(a)
            sol.add(z3.Not(goal))
            r = sol.check()
            return r == z3.unsat
        except (Unsupported, z3.Z3Exception):
            return False
        finally:
            s.solver_secs += time.time() - t0

    def relevant(s, roots):
        """hypotheses sharing variables (transitively) with the goal"""
        vs = {v.id for v in variables(roots)}
        hv = [(h, {v.id for v in variables(formula_terms(h))}) for h in s.flat if not isinstance(h, bool)]
        out, changed = [], True
        pend = hv
        while changed:
            changed = False
            nxt = []
            for h, v in pend:
                if v & vs or not v:
                    out.append(h)
                    if len(topo(formula_terms(h))) < 200:
                        vs |= v
                    changed = True
                else:
                    nxt.append((h, v))
            pend = nxt
        return out

    def infeasible_small(s, ms=500):
        """as infeasible, with functions and quotients as bounded unknowns and only short hypotheses"""
        arith = ("+", "*", "c", "v")
        sol = z3.Solver()
        sol.set("timeout", ms)
        zs = {}

        def enc(t):
            if t.id in zs:
                return zs[t.id]
            if t.op == "c":
                r = z3.RealVal(str(t.args[0]))
            elif t.op in ("+", "*"):
                a, b = enc(t.args[0]), enc(t.args[1])
                r = a + b if t.op == "+" else a * b
            else:
                r = z3.Real(f"u{t.id}")
                iv = s.signs.get(t)
                if iv.lo > -INF:
                    sol.add(r > zfrac(iv.lo, -1) if iv.ls else r >= zfrac(iv.lo, -1))
                if iv.hi < INF:
                    sol.add(r < zfrac(iv.hi, 1) if iv.hs else r <= zfrac(iv.hi, 1))
            zs[t.id] = r
            return r

        n = 0
        try:
            for h in s.flat:
                if isinstance(h, B) and len(topo([h.a, h.b], stop=lambda t: t.op not in arith)) <= 16:
                    a, b = enc(h.a), enc(h.b)
                    sol.add({"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[h.op])
                    n += 1
            return n > 0 and sol.check() == z3.unsat
        except (Unsupported, z3.Z3Exception, OverflowError, ValueError):
            return False

    def infeasible(s, ms=2000):
        """try to show that the hypotheses are contradictory"""
        for h in s.flat:
            if h is False:
                return True
            if isinstance(h, B):
                iv = s.signs.get(h.b - h.a)
                if h.op == "<" and (iv.hi < 0 or (iv.hi == 0)) or h.op == "<=" and (iv.hi < 0 or (iv.hi == 0 and iv.hs)):
                    return True
                if h.op == "!=" and iv.lo == 0 == iv.hi:
                    return True
                if h.op == "==" and iv.sign() in ("+", "-"):
                    return True
        t0 = time.time()
        if s.infeasible_small():
            s.solver_secs += time.time() - t0
            return True
        try:
            enc = Z3Enc(s.rules)
            sol = z3.Solver()
            sol.set("timeout", ms)
            for h in s.flat:
                if isinstance(h, bool):
                    continue
                if len(topo(formula_terms(h))) < 400:
                    sol.add(enc.formula(h))
            for a in enc.axioms():
                sol.add(a)
            if sol.check() == z3.unsat:
                return True
        except (Unsupported, z3.Z3Exception):
            pass
        finally:
            s.solver_secs += time.time() - t0
        # contradiction through the other strategies: negate each hypothesis in turn
        return False


def strip_turn(t):
    """drop an additive multiple of a full turn"""
    parts, todo = [], [t]
    while todo:
        u = todo.pop()
        if u.op == "+":
            todo.extend(u.args)
        else:
            parts.append(u)
    cs = [u for u in parts if u.isconst]
    if not cs or len(cs) == len(parts):
        return t
    k = sum((u.num() for u in cs), mp.mpf(0)) / (2 * mp.pi)
    if k != 0 and abs(k - mp.nint(k)) < mp.mpf(10) ** -35:
        r = None
        for u in reversed(parts):
            if not u.isconst:
                r = u if r is None else r + u
        return r
    return t


class Z3Enc:
    def __init__(s, rules=()):
        s.m = {}
        s.ax = []
        s.rules = {l.id: r for l, r in rules}
        s.trig = {}
        s.targ = {}
        s.n = 0

    def axioms(s):
        # Lipschitz / pairing axioms for sine and cosine of the same argument
        for key, (si, co) in s.trig.items():
            s.ax.append(si * si + co * co == 1)
            s.ax.append(z3.And(si <= 1, si >= -1, co <= 1, co >= -1))
        ks = list(s.trig)
        if 2 <= len(ks) <= 4:
            for i, k in enumerate(ks):
                for l in ks[:i]:
                    x, y = s.targ[k], s.targ[l]
                    for j in (0, 1):
                        a, b = s.trig[k][j], s.trig[l][j]
                        s.ax.append(z3.Implies(x >= y, z3.And(a - b <= x - y, b - a <= x - y)))
                        s.ax.append(z3.Implies(x <= y, z3.And(a - b <= y - x, b - a <= y - x)))
        return s.ax

    def formula(s, g):
        if isinstance(g, bool):
            return z3.BoolVal(g)
        if isinstance(g, B):
            a, b = s.term(g.a), s.term(g.b)
            return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[g.op]
        fs = [s.formula(x) for x in g[1]]
        return z3.And(*fs) if g[0] == "and" else z3.Or(*fs)

    def term(s, t):
        for u in topo([t], stop=lambda u: u.id in s.m):
            if u.id not in s.m:
                if u.id in s.rules and s.rules[u.id] is not u:
                    s.m[u.id] = s.term(s.rules[u.id])
                else:
                    s.m[u.id] = s.enc(u)
        return s.m[t.id]

    def new(s, base, sort="real"):
        s.n += 1
        return z3.Int(f"{base}_{s.n}") if sort == "int" else z3.Real(f"{base}_{s.n}")

    def enc(s, t):
        op, a = t.op, t.args
        g = lambda i: s.m[a[i].id]
        if op == "c":
            f = a[0]
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        if op == "v":
            return z3.ToReal(z3.Int("i_" + a[0])) if a[1] == "int" else z3.Real("v_" + a[0])
        if op == "+":
            return g(0) + g(1)
        if op == "*":
            return g(0) * g(1)
        if op == "/":
            q = s.new("q")
            s.ax.append(z3.Implies(g(1) != 0, q * g(1) == g(0)))
            return q
        if op == "pow":
            r = g(0)
            for _ in range(a[1] - 1):
                r = r * g(0)
            return r
        if op == "pi":
            p = z3.Real("pi")
            s.ax.append(z3.And(p > z3.RealVal("3.14159265358979323846264338327950288419"), p < z3.RealVal("3.14159265358979323846264338327950288420")))
            return p
        if op == "e":
            p = z3.Real("e")
            s.ax.append(z3.And(p > z3.RealVal("2.718281828459045"), p < z3.RealVal("2.718281828459046")))
            return p
        if op == "sqrt":
            x = s.new("sqrt")
            s.ax.append(z3.Implies(g(0) >= 0, z3.And(x >= 0, x * x == g(0))))
            return x
        if op == "rpow":
            x = s.new("root")
            q = a[1]
            s.ax.append(z3.Implies(g(0) >= 0, x >= 0))
            s.ax.append(z3.Implies(g(0) > 0, x > 0))
            if abs(q.numerator) <= 3 and q.denominator <= 3:
                l = r = z3.RealVal(1)
                for _ in range(q.denominator):
                    l = l * x
                for _ in range(abs(q.numerator)):
                    r = r * g(0)
                s.ax.append(z3.Implies(g(0) > 0, l == r if q > 0 else l * r == 1))
            return x
        if op in ("sin", "cos"):
            ar = strip_turn(a[0])
            k = ar.id
            if k not in s.trig:
                s.trig[k] = (s.new("sin"), s.new("cos"))
                si, co = s.trig[k]
                x = s.targ[k] = s.term(ar)
                p = s.term(PI)
                s.ax.append(z3.Implies(z3.And(x > -p / 2, x < p / 2), co > 0))
                s.ax.append(z3.Implies(z3.And(x > 0, x < p), si > 0))
                s.ax.append(z3.Implies(z3.And(x > -p, x < 0), si < 0))
                s.ax.append(z3.Implies(x == 0, z3.And(si == 0, co == 1)))
                s.ax.append(z3.Implies(x >= 0, si <= x))
                s.ax.append(z3.Implies(x <= 0, si >= x))
                s.ax.append(z3.Implies(x <= 2 * p, si >= x - 2 * p))
                s.ax.append(z3.Implies(x >= 2 * p, si <= x - 2 * p))
                s.ax.append(z3.Implies(x >= -2 * p, si <= x + 2 * p))
            return s.trig[k][0 if op == "sin" else 1]
        if op == "tan":
            si, co = s.enc(T("sin", a[0])), s.enc(T("cos", a[0]))
            q = s.new("tan")
            s.ax.append(z3.Implies(co != 0, q * co == si))
            return q
        if op == "atan2":
            x = s.new("atan2")
            p = s.term(PI)
            y, xx = g(0), g(1)
            s.ax.append(z3.And(x > -p, x <= p))
            s.ax.append(z3.Implies(y > 0, z3.And(x > 0, x < p)))
            s.ax.append(z3.Implies(y < 0, z3.And(x > -p, x < 0)))
            s.ax.append(z3.Implies(z3.And(y == 0, xx >= 0), x == 0))
            s.ax.append(z3.Implies(z3.And(y == 0, xx < 0), x == p))
            s.ax.append(z3.Implies(xx > 0, z3.And(x > -p / 2, x < p / 2)))
            s.ax.append(z3.Implies(xx < 0, z3.Or(x > p / 2, x < -p / 2)))
            return x
        if op in ("asin", "acos"):
            x = s.new(op)
            p = s.term(PI)
            u = g(0)
            if op == "asin":
                s.ax.append(z3.And(x >= -p / 2, x <= p / 2))
                s.ax.append(z3.And(z3.Implies(u > 0, x > 0), z3.Implies(u < 0, x < 0), z3.Implies(u == 0, x == 0)))
                s.ax.append(z3.Implies(z3.And(u < 1, u > -1), z3.And(x > -p / 2, x < p / 2)))
            else:
                s.ax.append(z3.And(x >= 0, x <= p))
                s.ax.append(z3.Implies(u > 0, x < p / 2))
                s.ax.append(z3.Implies(u < 0, x > p / 2))
                s.ax.append(z3.Implies(u < 1, x > 0))
            return x
        if op == "exp":
            x = s.new("exp")
            u = g(0)
            s.ax.append(x > 0)
            s.ax.append(z3.And(z3.Implies(u > 0, x > 1), z3.Implies(u < 0, x < 1), z3.Implies(u == 0, x == 1)))
            s.ax.append(x >= 1 + u)
            return x
        if op == "log":
            x = s.new("log")
            u = g(0)
            s.ax.append(z3.And(z3.Implies(u > 1, x > 0), z3.Implies(z3.And(u > 0, u < 1), x < 0), z3.Implies(u == 1, x == 0)))
            return x
        if op == "floor":
            x = z3.Int(f"floor_{t.id}")
            r = z3.ToReal(x)
            s.ax.append(z3.And(r <= g(0), g(0) < r + 1))
            return r
        if op == "wrap":
            x = s.new("wrap")
            p = s.term(PI)
            k = z3.Int(f"wrapk_{t.id}")
            s.ax.append(z3.And(x >= 0, x < 2 * p, x == g(0) - 2 * p * z3.ToReal(k)))
            return x
        if op == "uf":
            x = z3.Real(f"uf_{t.id}")
            return x
        raise Unsupported("z3 " + op)
