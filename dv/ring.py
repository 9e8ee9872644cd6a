"""Normal forms in a field of rational functions over 'atoms' (variables, pi, and
applications of sqrt/sin/cos/atan2/... with normalised arguments).

A term is proved to be zero when its numerator, after clearing denominators, rewrites to
the zero polynomial under rules that are theorems of real analysis:
   sqrt(A)^2 = A            root_q(A)^q = A        sin(A)^2 = 1 - cos(A)^2
   sin/cos(atan2(y,x)) = y,x / sqrt(x^2+y^2)  (x,y not both 0)
   sin(asin u) = u, cos(asin u) = sqrt(1-u^2), and the acos versions
   sin/cos(wrap(A)) = sin/cos(A),  angle-sum expansion,  exp(-A) = 1/exp(A)
Side conditions (positivity used to split roots, non-vanishing used to divide) are
discharged by the sign analysis or recorded for the caller to prove.
"""
from fractions import Fraction
import math
import time
import mpmath as mp
from .terms import (T, B, const, ZERO, ONE, PI, Unsupported, evaluate, rebuild, _sqrt, rdiv, show, topo)
from . import terms as tm


class Budget(Exception):
    pass


MAXTERMS = 60000


def _q(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = _q(v)
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_mul(a, b):
    if len(a) * len(b) > 4000000:
        raise Budget("polynomial product too large")
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            r[m] = v
    r = {m: _q(c) for m, c in r.items() if c}
    if len(r) > MAXTERMS:
        raise Budget("polynomial too large")
    return r


def p_scale(a, c):
    return {m: _q(v * c) for m, v in a.items()}


def p_mono(a, mono, c=1):
    return {m_mul(m, mono): _q(v * c) for m, v in a.items()}


def p_pow(a, n):
    r = {(): 1}
    for _ in range(n):
        r = p_mul(r, a)
    return r


P1 = {(): 1}


class RF:
    """num / prod(den_i ** k_i); num is a Laurent polynomial, den_i multi-term polynomials"""

    __slots__ = ("num", "den")

    def __init__(s, num, den=None):
        s.num = num
        s.den = den or {}

    def is_zero(s):
        return not s.num


def rf_const(c):
    return RF({(): _q(Fraction(c))} if c else {})


def _split(poly):
    """poly = c * mono * primitive  (primitive: multi-term with no common monomial)"""
    ms = list(poly)
    mins = {}
    first = True
    for m in ms:
        d = dict(m)
        if first:
            mins = d
            first = False
        else:
            for a in list(mins):
                mins[a] = min(mins[a], d.get(a, 0))
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
    mono = tuple(sorted((a, e) for a, e in mins.items() if e))
    inv = tuple((a, -e) for a, e in mono)
    c = poly[min(ms)]
    prim = p_mono(poly, inv, Fraction(1) / c) if (mono or c != 1) else poly
    return c, mono, prim


def rf_mul(a, b):
    if not a.num or not b.num:
        return RF({})
    num = a.num
    den = dict(a.den)
    bnum = b.num
    for k, (p, e) in b.den.items():
        den[k] = (p, den[k][1] + e) if k in den else (p, e)
    # cancel an exact denominator factor equal to the other numerator
    num = _cancel_mul(num, bnum, den)
    return RF(num, den)


def _cancel_mul(x, y, den):
    if den:
        for which in (0, 1):
            z = (x, y)[which]
            if len(z) > 1:
                c, mono, prim = _split(z)
                k = frozenset(prim.items())
                if k in den:
                    p, e = den[k]
                    if e > 1:
                        den[k] = (p, e - 1)
                    else:
                        del den[k]
                    z = {mono: c}
                    if which == 0:
                        x = z
                    else:
                        y = z
    return p_mul(x, y)


def rf_inv(a):
    if not a.num:
        raise Unsupported("division by zero")
    num = P1
    for k, (p, e) in a.den.items():
        num = p_mul(num, p_pow(p, e))
    if len(a.num) == 1:
        (m, c), = a.num.items()
        return RF(p_mono(num, tuple((x, -e) for x, e in m), Fraction(1) / c))
    c, mono, prim = _split(a.num)
    return RF(p_mono(num, tuple((x, -e) for x, e in mono), Fraction(1) / c), {frozenset(prim.items()): (prim, 1)})


def rf_add(a, b, k=1):
    if not b.num:
        return a
    if not a.num:
        return RF(p_scale(b.num, k), b.den)
    if a.den.keys() == b.den.keys() and all(a.den[x][1] == b.den[x][1] for x in a.den):
        n = p_add(a.num, b.num, k)
        return RF(n, a.den if n else {})
    den = dict(a.den)
    for x, (p, e) in b.den.items():
        if x not in den or den[x][1] < e:
            den[x] = (p, e)
    na, nb = a.num, b.num
    for x, (p, e) in den.items():
        ea = a.den[x][1] if x in a.den else 0
        eb = b.den[x][1] if x in b.den else 0
        if e > ea:
            na = p_mul(na, p_pow(p, e - ea))
        if e > eb:
            nb = p_mul(nb, p_pow(p, e - eb))
    n = p_add(na, nb, k)
    return RF(n, den if n else {})


def rf_pow(a, n):
    r = rf_const(1)
    if n < 0:
        return rf_pow(rf_inv(a), -n)
    while n:
        if n & 1:
            r = rf_mul(r, a)
        a = rf_mul(a, a) if n > 1 else a
        n >>= 1
    return r


class Atom:
    __slots__ = ("id", "fn", "term", "arg", "rank", "q")

    def __init__(s, id, fn, term, arg, rank, q=None):
        s.id, s.fn, s.term, s.arg, s.rank, s.q = id, fn, term, arg, rank, q


_PRIMES = {}


def _factor(n):
    """square-free split of a positive integer: n = s^2 * f ; trial division"""
    if n in _PRIMES:
        return _PRIMES[n]
    s, fac, m, p = 1, [], n, 2
    while p * p <= m and p < 100000:
        e = 0
        while m % p == 0:
            m //= p
            e += 1
        s *= p ** (e // 2)
        if e % 2:
            fac.append(p)
        p += 1 if p == 2 else 2
    if m > 1:
        r = math.isqrt(m)
        if r * r == m:
            s *= r
        else:
            fac.append(m)
    _PRIMES[n] = (s, fac)
    return s, fac


class Norm:
    """a normalisation context: a set of facts (sign oracle), sample points, rewrite rules"""

    def __init__(s, samples, sign=None, rules=(), expand=False, deadline=None):
        s.samples = samples[:2]
        s.sign = sign or (lambda t: None)  # T -> '+', '-', '0+', '0-', None
        s.atoms = []
        s.memo = {}
        s.byfn = {}
        s.memos = [dict() for _ in s.samples]
        s.side = {}  # side conditions used: key -> B
        s.expand = expand
        s.subst = {}
        s.extra = {}  # atom id -> (n, RF)  meaning atom^n = RF
        s.deadline = deadline
        s.bases = []
        for lhs, rhs in rules:
            s.subst[lhs.id] = rhs

    # -- numeric fingerprints
    def fp(s, t):
        return [evaluate([t], env, m)[0] for env, m in zip(s.samples, s.memos)]

    @staticmethod
    def close(x, y, scale=1):
        return not mp.isnan(x) and not mp.isnan(y) and abs(x - y) <= mp.mpf(10) ** -35 * (abs(x) + abs(y) + mp.mpf(10) ** -20)

    def need(s, b):
        s.side[b.key()] = b

    # -- atoms
    def atom(s, fn, term, arg=None, q=None):
        """find or create the atom for a function application (arg: RF or tuple of RFs)"""
        key = (fn, term.id)
        lst = s.byfn.setdefault((fn, q), [])
        fpv = s.fp(term)
        for a, f in lst:
            if a.term is term:
                return a
        for a, f in lst:
            if fn in ("v", "pi", "e"):
                continue
            if all((mp.isnan(x) and mp.isnan(y)) or s.close(x, y) for x, y in zip(f, fpv)):
                if s.same_args(a.arg, arg):
                    return a
        a = Atom(len(s.atoms), fn, term, arg, len(s.atoms), q)
        s.atoms.append(a)
        lst.append((a, fpv))
        return a

    def same_args(s, x, y):
        if isinstance(x, tuple):
            return len(x) == len(y) and all(s.same_args(p, r) for p, r in zip(x, y))
        return s.zero(rf_add(x, y, -1))

    def at(s, a, e=1):
        return RF({((a.id, e),): 1})

    # -- main conversion
    def rf(s, t):
        m = s.memo
        if t.id in m:
            return m[t.id]
        for u in topo([t], stop=lambda u: u.id in m):
            if u.id not in m:
                if s.deadline and time.time() > s.deadline:
                    raise Budget("time")
                m[u.id] = s._rf(u)
        return m[t.id]

    def _rf(s, t):
        op, a = t.op, t.args
        if t.id in s.subst:
            return s.rf(s.subst[t.id])
        g = lambda i: s.memo[a[i].id]
        if op == "c":
            return rf_const(a[0])
        if op in ("v", "pi", "e"):
            return s.at(s.atom(op, t))
        if op == "+":
            return rf_add(g(0), g(1))
        if op == "*":
            return s.tidy(rf_mul(g(0), g(1)))
        if op == "/":
            d = g(1)
            if not d.num or s.zero(d):
                raise Unsupported("division by a term that is identically zero")
            return s.tidy(rf_mul(g(0), rf_inv(s.tidy(d))))
        if op == "pow":
            return s.tidy(rf_pow(g(0), a[1]))
        if op == "sqrt":
            return s.root(t, s.reduce(g(0)), 2)
        if op == "rpow":
            q = a[1]
            r = s.root(tm.T("rpow", a[0], Fraction(1, q.denominator)) if q.denominator != 2 else _sqrt(a[0]), s.reduce(g(0)), q.denominator)
            return s.tidy(rf_pow(r, q.numerator))
        if op in ("sin", "cos"):
            return s.trig(a[0])[0 if op == "sin" else 1]
        if op == "tan":
            si, co = s.trig(a[0])
            return rf_mul(si, rf_inv(co))
        if op == "exp":
            return s.exp(a[0], g(0))
        if op == "log":
            x = s.reduce(g(0))
            if len(x.num) == 1 and not x.den:
                (m, c), = x.num.items()
                if len(m) == 1 and c == 1 and s.atoms[m[0][0]].fn == "exp":
                    return rf_mul(rf_const(m[0][1]), s.atoms[m[0][0]].arg)
            return s.at(s.atom("log", t, x))
        if op == "floor":
            x = s.reduce(g(0))
            k = 0
            if not x.den and () in x.num:
                k = math.floor(x.num[()])
            if k:
                n = dict(x.num)
                v = n.pop(()) - k
                if v:
                    n[()] = v
                return rf_add(s.at(s.atom("floor", tm.floor(a[0] - k), RF(n))), rf_const(k))
            return s.at(s.atom("floor", t, x))
        if op in ("asin", "acos", "wrap"):
            x = s.reduce(g(0))
            if op != "wrap" and not x.num:
                return rf_const(0) if op == "asin" else rf_mul(s.rf(PI), rf_const(Fraction(1, 2)))
            if op != "wrap" and not x.den and list(x.num) == [()] and abs(x.num[()]) == 1:
                one = x.num[()] == 1
                if op == "acos":
                    return rf_const(0) if one else s.rf(PI)
                return rf_mul(s.rf(PI), rf_const(Fraction(1 if one else -1, 2)))
            return s.at(s.atom(op, t, x))
        if op == "atan2":
            return s.at(s.atom(op, t, (s.reduce(g(0)), s.reduce(g(1)))))
        if op == "uf":
            return s.at(s.atom("uf:" + a[0], t, tuple(s.reduce(s.memo[x.id]) for x in a[1:])))
        raise Unsupported("normalise " + op)

    def tidy(s, r):
        """cheap reduction while building: positive even powers of roots/sines"""
        return s.reduce_num(r) if s._reducible(r.num) else r

    def _rule(s, aid):
        if aid in s.extra:
            return s.extra[aid]
        a = s.atoms[aid]
        if a.fn == "sqrt":
            return (2, a.arg)
        if a.fn == "root":
            return (a.q, a.arg)
        if a.fn == "sin":
            c = s.atoms[a.q]
            return (2, RF({(): 1, ((c.id, 2),): -1}))
        return None

    def _reducible(s, poly):
        for m in poly:
            for aid, e in m:
                if e > 1:
                    r = s._rule(aid)
                    if r and e >= r[0]:
                        return True
        return False

    def reduce_num(s, r):
        """apply atom^n -> RF for positive powers until none applies"""
        guard = 0
        while True:
            target = None
            for m in r.num:
                for aid, e in m:
                    if e > 1:
                        ru = s._rule(aid)
                        if ru and e >= ru[0] and (target is None or aid > target):
                            target = aid
            if target is None:
                return r
            guard += 1
            if guard > 400:
                raise Budget("reduction does not terminate")
            if s.deadline and time.time() > s.deadline:
                raise Budget("time")
            n, rhs = s._rule(target)
            groups = {}
            for m, c in r.num.items():
                k, rest = 0, m
                for i, (aid, e) in enumerate(m):
                    if aid == target and e >= n:
                        k = e // n
                        e2 = e - k * n
                        rest = m[:i] + (((aid, e2),) if e2 else ()) + m[i + 1:]
                        break
                groups.setdefault(k, {})[rest] = c
            acc = RF(groups.pop(0, {}), r.den)
            if not acc.num:
                acc = RF({})
            for k, p in sorted(groups.items()):
                acc = rf_add(acc, rf_mul(RF(p, r.den), rf_pow(rhs, k)))
            r = acc

    def reduce(s, r):
        """full reduction of the numerator; negative root powers are rationalised"""
        r = s.reduce_num(r)
        neg = {}
        for m in r.num:
            for aid, e in m:
                if e < 0 and s.atoms[aid].fn in ("sqrt",):
                    neg[aid] = min(neg.get(aid, 0), e)
        # common monomial with roots in denominators: try to clear and simplify
        return r

    def zero(s, r):
        """is the rational function identically zero?"""
        if not r.num:
            return True
        # numeric filter
        for i, env in enumerate(s.samples):
            v = s.num_poly(r.num, i)
            if v is not None:
                val, mag = v
                if abs(val) > mp.mpf(10) ** -30 * mag:
                    return False
        guard = 0
        while r.num:
            mins = {}
            for m in r.num:
                for aid, e in m:
                    if e < 0:
                        mins[aid] = min(mins.get(aid, 0), e)
            if mins:
                mono = tuple(sorted((a, -e) for a, e in mins.items()))
                r = RF(p_mono(r.num, mono))
            else:
                r = RF(r.num)
            before = r.num
            r = s.reduce_num(r)
            r = RF(r.num)
            if r.num is before or r.num == before:
                break
            guard += 1
            if guard > 50:
                return False
        return not r.num

    def num_poly(s, poly, i):
        env, memo = s.samples[i], s.memos[i]
        ids = {aid for m in poly for aid, _ in m}
        vals = {}
        for aid in ids:
            v = evaluate([s.atoms[aid].term], env, memo)[0]
            if mp.isnan(v):
                return None
            vals[aid] = v
        tot = mp.mpf(0)
        mag = mp.mpf(0)
        for m, c in poly.items():
            x = mp.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mp.mpf(c)
            for aid, e in m:
                if vals[aid] == 0 and e < 0:
                    return None
                x *= vals[aid] ** e
            tot += x
            mag += abs(x)
        return tot, mag

    # -- back to terms
    def term(s, r):
        n = s.poly_term(r.num)
        for k, (p, e) in r.den.items():
            d = s.poly_term(p)
            n = rdiv(n, d if e == 1 else rebuild("pow", [d, e]))
        return n

    def poly_term(s, poly):
        tot = ZERO
        for m, c in sorted(poly.items(), key=lambda kv: kv[0]):
            x = const(c)
            d = ONE
            for aid, e in m:
                at = s.atoms[aid].term
                if e > 0:
                    x = x * (at if e == 1 else rebuild("pow", [at, e]))
                else:
                    d = d * (at if e == -1 else rebuild("pow", [at, -e]))
            tot = tot + (x if d is ONE else rdiv(x, d))
        return tot

    # -- roots
    def possign(s, aid):
        a = s.atoms[aid]
        if a.fn in ("pi", "e", "exp"):
            return "+"
        return s.sign(a.term)

    def root(s, t, x, q):
        """q-th root of RF x (t: the original term, real and >= 0 by its domain obligation)"""
        if not x.num:
            return rf_const(0)
        if q == 2 and 1 < len(x.num) <= 40:
            y = s.as_sines(x.num)
            if y is not None:
                x = RF(y, x.den)
        c, mono, prim = _split(x.num)
        c = Fraction(c)
        out = rf_const(1)
        inner_mono = []
        core = prim if len(x.num) > 1 else P1
        dens = {}
        # monomial part
        for aid, e in mono:
            sg = s.possign(aid)
            at = s.atoms[aid]
            if sg == "+" or (sg == "0+" and e > 0):
                if at.fn == "sqrt" and q == 2:
                    # sqrt(sqrt(..)^e): pull whole squares only
                    k, rem = divmod(e, 2)
                    if k:
                        out = rf_mul(out, s.at(at, k))
                    if rem:
                        inner_mono.append((aid, 1))
                    continue
                k, rem = divmod(e, q)
                if k:
                    out = rf_mul(out, s.at(at, k))
                if rem:
                    rt = s.root_atom(at.term, s.at(at), q)
                    out = rf_mul(out, s.at(rt, rem))
            elif sg == "-" and q == 2:
                k, rem = divmod(e, 2)
                if k:
                    out = rf_mul(out, rf_mul(s.at(at, k), rf_const(1 if k % 2 == 0 else -1)))
                if rem:
                    inner_mono.append((aid, 1))
            elif q == 2 and e % 4 == 0:
                out = rf_mul(out, s.at(at, e // 2))
            else:
                inner_mono.append((aid, e))
        for k, (p, e) in x.den.items():
            pt = s.poly_term(p)
            sg = s.sign(pt)
            if sg == "+":
                kk, rem = divmod(e, q)
                if rem:
                    kk += 1
                    core = p_mul(core, p_pow(p, q - rem))
                    core = s.reduce_num(RF(core)).num if not s.reduce_num(RF(core)).den else core
                out = rf_mul(out, RF(P1, {k: (p, kk)}))
            elif q == 2 and sg == "-":
                kk, rem = divmod(e, 2)
                if rem:
                    kk += 1
                    core = p_mul(core, p)
                out = rf_mul(out, RF({(): 1 if kk % 2 == 0 else -1}, {k: (p, kk)}))
            else:
                dens[k] = (p, e)
        # constant
        sgn = 1
        if not inner_mono and not dens and core == P1:
            if c < 0:
                raise Unsupported("root of negative constant")
        if c < 0:
            sgn = -1
            c = -c
        if q == 2 and c != 1 and not dens and core != P1 and _factor(c.numerator * c.denominator)[1]:
            sq = s.psqrt(p_mono(core, tuple(sorted(inner_mono)), _q(sgn * c)))
            if sq is not None:
                return s.tidy(rf_mul(out, RF(sq)))
        if q == 2:
            n = c.numerator * c.denominator
            sq, fac = _factor(n)
            out = rf_mul(out, rf_const(Fraction(sq, c.denominator)))
            for p in fac:
                out = rf_mul(out, s.at(s.root_atom(const(p), rf_const(p), 2)))
        elif c != 1:
            out = rf_mul(out, s.at(s.root_atom(const(c), rf_const(c), q)))
        rest = RF(p_mono(core, tuple(sorted(inner_mono)), sgn), dens)
        if not (not rest.den and list(rest.num.items()) == [((), 1)]):
            if q == 2 and not rest.den:
                sq = s.psqrt(rest.num)
                if sq is not None:
                    return s.tidy(rf_mul(out, RF(sq)))
            rt = s.root_atom(s.term(rest), rest, q)
            out = rf_mul(out, s.at(rt))
        return s.tidy(out)

    def as_sines(s, poly):
        """poly = k * mono * sin^2..., when 1 - cos^2 factors collapse it to one monomial of known sign"""
        pair = {a.q: a.id for a in s.atoms if a.fn == "sin"}
        cs = {i for m in poly for i, _ in m if i in pair}
        for c in cs:
            if any(dict(m).get(c, 0) % 2 or dict(m).get(c, 0) < 0 for m in poly):
                continue
            out = {}
            for m, k in poly.items():
                e = dict(m).get(c, 0) // 2
                rest = tuple(x for x in m if x[0] != c)
                out = p_add(out, p_mono(p_pow({(): 1, ((pair[c], 2),): -1}, e), rest, k))
            if len(out) == 1:
                (m,) = out
                if all(e % 2 == 0 for i, e in m if i == pair[c]) and s.possign(pair[c]) in ("+", "-", "0+"):
                    return out
        return None

    def psqrt(s, poly):
        """perfect-square detection for small polynomials with a definite sign of the root"""
        if len(poly) == 1:
            return None
        if len(poly) > 40:
            return None
        # leading-term square root by undetermined division (lexicographic)
        try:
            rem = dict(poly)
            rt = {}
            ids = sorted({a for m in poly for a, _ in m})
            key = lambda m: tuple(dict(m).get(a, 0) for a in ids)
            lead = max(rem, key=key)
            c = Fraction(rem[lead])
            if c < 0 or any(e % 2 for _, e in lead):
                return None
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n != c.numerator or d * d != c.denominator:
                return None
            l0 = tuple((a, e // 2) for a, e in lead)
            c0 = Fraction(n, d)
            rt[l0] = _q(c0)
            rem = p_add(rem, p_mul(rt, rt), -1)
            inv = tuple((a, -e) for a, e in l0)
            for _ in range(12):
                if not rem:
                    break
                m = max(rem, key=key)
                tm_ = m_mul(m, inv)
                if any(e < 0 for _, e in tm_):
                    return None
                cc = Fraction(rem[m]) / (2 * c0)
                new = {tm_: _q(cc)}
                if tm_ in rt:
                    return None
                rem = p_add(rem, p_add(p_scale(p_mul(rt, new), 2), p_mul(new, new)), -1)
                rt[tm_] = _q(cc)
            if rem:
                return None
            sg = s.sign(s.poly_term(rt))
            if sg in ("+", "0+"):
                return rt
            if sg in ("-", "0-"):
                return p_scale(rt, -1)
        except Exception:
            return None
        return None

    def root_atom(s, base, rf, q):
        if q == 2:
            return s.atom("sqrt", _sqrt(base), rf)
        return s.atom("root", T("rpow", base, Fraction(1, q)), rf, q)

    # -- exponentials
    def exp(s, at, x):
        x = s.reduce(x)
        if not x.num:
            return rf_const(1)
        v = s.fp(s.term(x))[0] if s.samples else mp.mpf(1)
        neg = not mp.isnan(v) and v < 0
        if neg:
            y = RF(p_scale(x.num, -1), x.den)
            return s.at(s.atom("exp", T("exp", s.term(y)), y), -1)
        return s.at(s.atom("exp", T("exp", at), x))

    # -- trigonometry
    def trig(s, a):
        """(sin, cos) of a term as RFs"""
        key = ("trig", a.id)
        if key in s.memo:
            return s.memo[key]
        x = s.reduce(s.rf(a))
        r = s.trig_rf(x)
        s.memo[key] = r
        return r

    def trig_rf(s, x):
        if not x.num:
            return rf_const(0), rf_const(1)
        if x.den:
            return s.trig_base(x)
        parts = []  # list of (sin,cos)
        rest = {}
        for m, c in x.num.items():
            if len(m) == 1 and m[0][1] == 1 and Fraction(c).denominator == 1:
                at = s.atoms[m[0][0]]
                if at.fn in ("atan2", "asin", "acos", "wrap") and abs(c) <= 12:
                    parts.append(s.multiple(s.special(at), int(c)))
                    continue
                if at.fn == "pi":
                    parts.append(((rf_const(0), rf_const(1 if c % 2 == 0 else -1))))
                    continue
            if len(m) == 1 and m[0][1] == 1 and s.atoms[m[0][0]].fn == "pi":
                c = Fraction(c)
                if c.denominator == 2:
                    k = int(c * 2) % 4
                    parts.append((rf_const([0, 1, 0, -1][k]), rf_const([1, 0, -1, 0][k])))
                    continue
            # 2*pi*integer
            if m and Fraction(c) % 2 == 0 and s._pi_int(m):
                continue
            rest[m] = c
        if rest:
            if s.expand:
                parts.extend(s.expand_rest(rest))
            else:
                parts.append(s.trig_base(RF(rest)))
        si, co = rf_const(0), rf_const(1)
        for p, q in parts:
            si, co = (rf_add(rf_mul(si, q), rf_mul(co, p)), rf_add(rf_mul(co, q), rf_mul(si, p), -1))
            si, co = s.tidy(si), s.tidy(co)
        return si, co

    def _pi_int(s, m):
        seen = False
        for aid, e in m:
            a = s.atoms[aid]
            if a.fn == "pi" and e == 1:
                seen = True
            elif a.term.sort == "int" and e > 0:
                pass
            else:
                return False
        return seen

    def special(s, at):
        if at.fn == "wrap":
            return s.trig_rf(at.arg)
        if at.fn == "asin":
            u = at.arg
            return u, s.root(None, s.reduce(rf_add(rf_const(1), rf_mul(u, u), -1)), 2)
        if at.fn == "acos":
            u = at.arg
            return s.root(None, s.reduce(rf_add(rf_const(1), rf_mul(u, u), -1)), 2), u
        y, x = at.arg
        h2 = s.reduce(rf_add(rf_mul(y, y), rf_mul(x, x)))
        h = s.root(None, h2, 2)
        s.need(B("!=", s.term(h2), ZERO))
        hi = rf_inv(h)
        return s.tidy(rf_mul(y, hi)), s.tidy(rf_mul(x, hi))

    def seed(s, d):
        """visit the angles of d innermost and smallest first, so that multiples are
        expressed through them"""
        depth, args = {}, {}
        for t in topo([d]):
            k = max([depth.get(a.id, 0) for a in t.args if isinstance(a, T)], default=0)
            if t.op in ("sin", "cos", "tan"):
                args[t.args[0].id] = (k, t.args[0])
                k += 1
            depth[t.id] = k
        if len(args) < 2:
            return

        def size(a):
            f = [x for x in s.fp(a) if not mp.isnan(x)]
            return abs(f[0]) if f else mp.mpf(0)

        for k, a in sorted(args.values(), key=lambda x: (x[0], size(x[1]))):
            s.trig(a)

    def multiple(s, sc, k):
        if k < 0:
            si, co = s.multiple(sc, -k)
            return rf_mul(si, rf_const(-1)), co
        si, co = rf_const(0), rf_const(1)
        for _ in range(k):
            si, co = (
                s.tidy(rf_add(rf_mul(si, sc[1]), rf_mul(co, sc[0]))),
                s.tidy(rf_add(rf_mul(co, sc[1]), rf_mul(si, sc[0]), -1)),
            )
        return si, co

    def trig_base(s, x):
        """sin/cos atoms of an irreducible angle, identified up to sign"""
        t = s.term(x)
        f = s.fp(t)
        for b, bf, sa, ca in s.bases:
            if all(s.close(p, r) for p, r in zip(f, bf)) and s.zero(rf_add(x, b, -1)):
                return s.at(sa), s.at(ca)
            if all(s.close(p, -r) for p, r in zip(f, bf)) and s.zero(rf_add(x, b)):
                return RF({((sa.id, 1),): -1}), s.at(ca)
        if s.expand and len(s.bases) and s.expand != "mono":
            r = s.combo(x, f)
            if r is not None:
                return r
        ca = s.atom("cos", T("cos", t), x)
        sa = s.atom("sin", T("sin", t), x)
        sa.q = ca.id
        s.bases.append((x, f, sa, ca))
        return s.at(sa), s.at(ca)

    def combo(s, x, f):
        """express an angle as a small integer combination of known base angles"""
        K = [0, 1, -1, 2, -2, 3, -3, 4, -4]
        n = len(s.bases)
        import itertools

        for size in (1, 2, 3):
            if n > 14 and size > 2:
                break
            for idx in itertools.combinations(range(n), size):
                for ks in itertools.product(K[1:], repeat=size):
                    if all(
                        s.close(f[i], sum(k * s.bases[j][1][i] for k, j in zip(ks, idx))) for i in range(len(f))
                    ):
                        acc = x
                        for k, j in zip(ks, idx):
                            acc = rf_add(acc, s.bases[j][0], -k)
                        if s.zero(acc):
                            si, co = rf_const(0), rf_const(1)
                            for k, j in zip(ks, idx):
                                p, q = s.multiple((s.at(s.bases[j][2]), s.at(s.bases[j][3])), k)
                                si, co = (
                                    s.tidy(rf_add(rf_mul(si, q), rf_mul(co, p))),
                                    s.tidy(rf_add(rf_mul(co, q), rf_mul(si, p), -1)),
                                )
                            return si, co
        return None

    def expand_rest(s, rest):
        """angle-sum expansion monomial by monomial"""
        if s.expand != "mono":
            return [s.trig_base(RF(rest))]
        out = []
        for m, c in rest.items():
            c = Fraction(c)
            n = c.numerator
            if abs(n) > 12:
                out.append(s.trig_base(RF({m: c})))
                continue
            unit = Fraction(1, c.denominator)
            out.append(s.multiple(s.trig_base(RF({m: unit})), n))
        return out
