"""Contracts of the force model: GCRF accelerations, Legendre functions, state derivative."""
import math
from math import factorial
import mpmath as mp
from dv import terms as tm
from dv.engine import Contract
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from dv.terms import diff
from contracts.timefn import MUE, FN
from contracts.celestial import to_itrf, itrf_gcrf, sun, moon, ufvec

ST = "openspace.coordinates.states:"
R = Real()
SRP = Q("4.56e-6")
MUS, MUM = Q("1.327124400419e11"), Q("4902.800305555")


def Ac(id, target, params, result, spec, **k):
    return Contract("force." + id, target, params, result, spec, **k)


# numeric meaning of the opaque Sun and Moon positions (for samples)
def vec_impl(name, f):
    memo = {}

    def val(e, i):
        if e not in memo:
            if len(memo) > 4000:
                memo.clear()
            saved, tm.HOOKS.ctx = tm.HOOKS.ctx, None
            try:
                memo[e] = [x.num() for x in f(tm.const(Fraction(*mp_ratio(e))))]
            finally:
                tm.HOOKS.ctx = saved
        return memo[e][i]

    for i, c in enumerate("xyz"):
        tm.UF_IMPL[f"{name}.{c}"] = lambda e, i=i: val(e, i)


def mp_ratio(x):
    s, m, e, _ = mp.mpf(x)._mpf_
    f = Fraction(int(m)) * (Fraction(2) ** int(e))
    f = -f if s else f
    return f.numerator, f.denominator


vec_impl("sun", sun)
vec_impl("moon", moon)
S_ = lambda e: ufvec("sun", e)
M_ = lambda e: ufvec("moon", e)

# --------------------------------------------------------------------- Legendre
LEG = Rec(FN + "LegendrePolynomial", {}, ctor=[])


def legendre(n, s):
    """P_n(s)"""
    p0, p1 = ONE, lift(s)
    if n == 0:
        return p0
    for k in range(2, n + 1):
        p0, p1 = p1, ((2 * k - 1) * s * p1 - (k - 1) * p0) / k
    return p1


def dlegendre(n, m, s):
    """m-th derivative of P_n"""
    x = tm.var("leg!x")
    t = legendre(n, x)
    for _ in range(m):
        t = diff(t, x)
    return tm.substitute(t, {x.id: lift(s)}, {})


class LegTy(Ty):
    cls = FN + "LegendrePolynomial"

    def view(s, o):
        return [[num(x) for x in r] for r in o.p]


def assoc(phi):
    """rows n = 0..4, columns m = 0..n+1: cos^m P_n^(m)(sin), zero beyond m = n"""
    out = []
    for n in range(5):
        out.append([power(cos(phi), lift(m)) * dlegendre(n, m, sin(phi)) if m <= n else ZERO for m in range(n + 2)])
    return out


Ac("LegendrePolynomial", FN + "LegendrePolynomial", [("phi", ANG)], LegTy(), lambda v: assoc(v["phi"]), stub=False)

# ------------------------------------------------------------------ geopotential
CBAR = {(2, 0): "-0.484165143790815e-3", (2, 1): "-0.206615509074176e-9", (2, 2): "0.243938357328313e-5",
        (3, 0): "0.957161207093473e-6", (3, 1): "0.203046201047864e-5", (3, 2): "0.904787894809528e-6", (3, 3): "0.721321757121568e-6",
        (4, 0): "0.539965866638991e-6", (4, 1): "-0.536157389388867e-6", (4, 2): "0.350501623962649e-6", (4, 3): "0.990856766672321e-6", (4, 4): "-0.188519633023033e-6"}
SBAR = {(2, 1): "0.138441389137979e-8", (2, 2): "-0.140027370385934e-5", (3, 1): "0.248200415856872e-6", (3, 2): "-0.619005475177618e-6", (3, 3): "0.141434926192941e-5",
        (4, 1): "-0.473567346518086e-6", (4, 2): "0.662480026275829e-6", (4, 3): "-0.200956723567452e-6", (4, 4): "0.308803882149194e-6"}
RE = Q("6378.137")


def unnorm(n, m):
    return sqrt(const(Fraction((1 if m == 0 else 2) * (2 * n + 1) * factorial(n - m), factorial(n + m))))


def potential(x, y, z):
    """degree 2..4 part of the geopotential as solid harmonics"""
    r2 = x * x + y * y + z * z
    r = sqrt(r2)
    u = ZERO
    re, im = [ONE], [ZERO]
    for m in range(4):
        re.append(re[-1] * x - im[-1] * y)
        im.append(re[m] * y + im[m] * x)
    for (n, m), cb in CBAR.items():
        k = unnorm(n, m)
        c = Q(cb) * k
        s = Q(SBAR.get((n, m), "0")) * k
        u = u + power(div(RE, r), lift(n)) * div(ONE, power(r, lift(m))) * dlegendre(n, m, div(z, r)) * (c * re[m] + s * im[m])
    return MUE * u * div(ONE, r)


_GRAD = []


def gradient(E):
    """gradient of the potential at E"""
    if not _GRAD:
        xs = [tm.var(f"grad!{c}") for c in "xyz"]
        saved, tm.HOOKS.ctx = tm.HOOKS.ctx, None
        U = potential(*xs)
        _GRAD.append((xs, [diff(U, x) for x in xs]))
        tm.HOOKS.ctx = saved
    xs, g = _GRAD[0]
    mp_ = {x.id: lift(e) for x, e in zip(xs, E)}
    memo = {}
    return [tm.substitute(t, mp_, memo) for t in g]


GS = StateTy("GCRF", extra={"thrust": Vec(3, -1e-4, 1e-4), "srp_scalar": Real(0, 0.1), "use_perturbations": BOOL})
GO = StateTy("GCRF")
P_ = lambda v: v["self"]["position"]
E_ = lambda v: v["self"]["epoch"]


def fixed(v):
    """Earth-fixed position (opaque while proving)"""
    if v.get("_concrete"):
        return to_itrf(P_(v), E_(v))
    return [uf(f"itrf.{c}", *P_(v), E_(v)) for c in "xyz"]


def back(x, e, concrete):
    if concrete:
        return itrf_gcrf(x, e)
    M = [[uf(f"T{i}{j}", e) for j in range(3)] for i in range(3)]
    return mv(M, x)


def grav_spec(v):
    return back(gradient(fixed(v)), E_(v), v.get("_concrete"))


def o_itrf(callee, caller, p):
    for a, b in zip(callee["pos"] + [callee["epoch"]], P_(caller) + [E_(caller)]):
        p.oblige("pre", "frame conversion of the state's own position and epoch", eq(a, b))
    return fixed(caller)


def o_gcrf(callee, caller, p):
    p.oblige("pre", "frame conversion at the state's own epoch", eq(callee["epoch"], E_(caller)))
    return back(callee["pos"], callee["epoch"], False)


def o_mag(callee, caller, p):
    x = callee["self"]
    if all(a is b for a, b in zip(x, P_(caller))):
        return mag(fixed(caller))
    return mag(x)


def off_pole(v):
    E = fixed(v)
    return [lt(ZERO, E[0] * E[0] + E[1] * E[1])]


for c_ in "xyz":
    pass


def itrf_num(i):
    def f(x, y, z, e):
        saved, tm.HOOKS.ctx = tm.HOOKS.ctx, None
        try:
            k = lambda t: tm.const(Fraction(*mp_ratio(t)))
            return to_itrf([k(x), k(y), k(z)], k(e))[i].num()
        finally:
            tm.HOOKS.ctx = saved

    return f


for i_, c_ in enumerate("xyz"):
    tm.UF_IMPL[f"itrf.{c_}"] = itrf_num(i_)

Ac("gravity", ST + "GCRF.acceleration_from_gravity", [("self", GO)], V3, grav_spec, requires=off_pole, opaque=lambda v: (geo(E_(v), P_(v)), []), tol=2e-7, mptol=1e-7, timeout=120,
   override={"pos.gcrf.to_itrf": o_itrf, "pos.itrf.to_gcrf": o_gcrf, "linalg.Vector3D.magnitude": o_mag},
   note="the Earth-fixed position is an opaque vector of the same length as the inertial one (exact up to the 1.1e-8 by which the low-order nutation matrix fails to be orthogonal)")


# ------------------------------------------------------------- the other terms
def cube(x):
    m = mag(x)
    return m * m * m


def central(r):
    return scale(r, div(-MUE, cube(r)))


def third(s, r, mu):
    d = sub(s, r)
    return scale(sub(scale(d, div(ONE, cube(d))), scale(s, div(ONE, cube(s)))), mu)


def pressure(e, r, k):
    return scale(unit(sub(S_(e), r)), -SRP * k / 1000)


nz = lambda v: [nonzero(P_(v))]
apart = lambda f: (lambda v: [nonzero(sub(f(E_(v)), P_(v)))])
Ac("earth", ST + "GCRF.acceleration_from_earth", [("self", GO)], V3, lambda v: central(P_(v)), requires=nz, stub=False)
Ac("moon", ST + "GCRF.acceleration_from_moon", [("self", GO)], V3, lambda v: third(M_(E_(v)), P_(v), MUM), requires=apart(M_), stub=False, tol=1e-4)
Ac("sun", ST + "GCRF.acceleration_from_sun", [("self", GO)], V3, lambda v: third(S_(E_(v)), P_(v), MUS), requires=apart(S_), stub=False, tol=1e-2)
Ac("srp", ST + "GCRF.acceleration_from_srp", [("self", GS)], V3, lambda v: pressure(E_(v), P_(v), v["self"]["srp_scalar"]), requires=apart(S_), stub=False)
Ac("thrust", ST + "GCRF.acceleration_from_thrust", [("self", GS)], V3, lambda v: v["self"]["thrust"], stub=False)
Ac("sun_vector", ST + "GCRF.sun_vector", [("self", GO)], V3, lambda v: sub(S_(E_(v)), P_(v)), stub=False)
Ac("moon_vector", ST + "GCRF.moon_vector", [("self", GO)], V3, lambda v: sub(M_(E_(v)), P_(v)), stub=False)


def geo(e, r):
    """opaque non-spherical acceleration (its own contract: force.gravity)"""
    return [uf(f"geo.{c}", *r, e) for c in "xyz"]


def geo_num(i):
    memo = {}

    def f(x, y, z, e):
        key = (x, y, z, e)
        if key not in memo:
            if len(memo) > 20000:
                memo.clear()
            saved, tm.HOOKS.ctx = tm.HOOKS.ctx, None
            try:
                k = lambda t: tm.const(Fraction(*mp_ratio(t)))
                memo[key] = [t.num() for t in itrf_gcrf([k(a) for a in gradient_num(to_itrf([k(x), k(y), k(z)], k(e)))], k(e))]
            finally:
                tm.HOOKS.ctx = saved
        return memo[key][i]

    return f


def gradient_num(E):
    gradient(E)
    xs, g = _GRAD[0]
    return tm.evaluate(g, {x.args[0]: lift(e).num() for x, e in zip(xs, E)})


for i_, c_ in enumerate("xyz"):
    tm.UF_IMPL[f"geo.{c_}"] = geo_num(i_)


def net(s):
    e, r = s["epoch"], s["position"]
    a = add(s["thrust"], central(r))
    if s["use_perturbations"] is True:
        for t in (third(M_(e), r, MUM), third(S_(e), r, MUS), pressure(e, r, s["srp_scalar"]), geo(e, r)):
            a = add(a, t)
    return a


def defined(s):
    e, r = s["epoch"], s["position"]
    out = [nonzero(r)]
    if s["use_perturbations"] is not False:
        E = [uf(f"itrf.{c}", *r, e) for c in "xyz"]
        out += [nonzero(sub(M_(e), r)), nonzero(sub(S_(e), r)), lt(ZERO, E[0] * E[0] + E[1] * E[1])]
    return out


def acc(s):
    """opaque acceleration of the force model"""
    t = 1 if s["use_perturbations"] is True else 0
    return [uf(f"acc{t}.{c}", s["epoch"], *s["position"], *s["thrust"], s["srp_scalar"]) for c in "xyz"]


def acc_num(t, i):
    memo = ACC_MEMO

    def f(*a):
        key = (t,) + a
        if key not in memo:
            if len(memo) > 20000:
                memo.clear()
            saved, tm.HOOKS.ctx = tm.HOOKS.ctx, None
            try:
                k = lambda x: tm.const(Fraction(*mp_ratio(x)))
                s = {"epoch": k(a[0]), "position": [k(x) for x in a[1:4]], "thrust": [k(x) for x in a[4:7]], "srp_scalar": k(a[7]), "use_perturbations": bool(t)}
                memo[key] = [x.num() for x in net(s)]
            finally:
                tm.HOOKS.ctx = saved
        return memo[key][i]

    return f


ACC_MEMO = {}
for t_ in (0, 1):
    for i_, c_ in enumerate("xyz"):
        tm.UF_IMPL[f"acc{t_}.{c_}"] = acc_num(t_, i_)


Ac("derivative", ST + "GCRF.derivative", [("self", GS)], ListOf(V3, V3), lambda v: [v["self"]["velocity"], net(v["self"])], requires=lambda v: defined(v["self"]),
   opaque=lambda v: ([v["self"]["velocity"], acc(v["self"])], []), tol=1e-6, mptol=1e-10)
