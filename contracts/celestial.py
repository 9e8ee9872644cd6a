"""Contracts of openspace.bodies.celestial and the inertial/Earth-fixed position conversions."""
from dv.engine import Contract
from dv.tys import *
from dv.spec import *
from contracts.timefn import rad, jd, jc, gha

CE = "openspace.bodies.celestial:"
PO = "openspace.coordinates.positions:"
E = [("epoch", EPOCH)]
R = Real()


def arcsec(x):
    return rad(Q(x)) / 3600


OBL = rad(Q("23.43929111"))


def obliquity(e):
    t = jc(e)
    return OBL - arcsec("46.815") * t - arcsec("0.00059") * t * t + arcsec("0.001813") * t * t * t


def dpsi(e):
    d = jd(e) - 2451545
    return rad(Q("-0.0048")) * sin(rad(125 - Q("0.05295") * d)) - rad(Q("0.0004")) * sin(rad(Q("200.9") + Q("1.97129") * d))


def deps(e):
    d = jd(e) - 2451545
    return rad(Q("0.0026")) * cos(rad(125 - Q("0.05295") * d)) + rad(Q("0.0002")) * cos(rad(Q("200.9") + Q("1.97129") * d))


def rz(t):
    """frame rotation about z by t"""
    return [[cos(t), sin(t), ZERO], [-sin(t), cos(t), ZERO], [ZERO, ZERO, ONE]]


def ry(t):
    return [[cos(t), ZERO, -sin(t)], [ZERO, ONE, ZERO], [sin(t), ZERO, cos(t)]]


def precession(e):
    """IAU 1976: Rz(-z) Ry(theta) Rz(-zeta)"""
    t = jc(e)
    zeta = arcsec("2306.2181") * t + arcsec("0.30188") * t * t + arcsec("0.017998") * t * t * t
    th = arcsec("2004.3109") * t - arcsec("0.42665") * t * t - arcsec("0.041833") * t * t * t
    z = zeta + arcsec("0.7928") * t * t + arcsec("0.000205") * t * t * t
    return mm(rz(-z), mm(ry(th), rz(-zeta)))


def nutation(e):
    a, b, o = dpsi(e), deps(e), obliquity(e)
    return [[ONE, -a * cos(o), -a * sin(o)], [a * cos(o), ONE, -b], [a * sin(o), b, ONE]]


def gast(e):
    return dpsi(e) * cos(obliquity(e)) + gha(e)


def rotation(e):
    return rz(gast(e))


def orthogonal(v, m):
    return [("orthogonal", land([veq(x, y) for x, y in zip(mm(tr(m), m), ident(3))])), ("determinant one", eq(det3(m), 1))]


def Cc(id, target, params, result, spec, **k):
    return Contract("sky." + id, CE + target, params, result, spec, **k)


Cc("Earth.obliquity", "Earth.obliquity_of_ecliptic_at_epoch", E, R, lambda v: obliquity(v["epoch"]))
Cc("Earth.geo_radius", "Earth.geo_radius", [], R, lambda v: power(Q("398600.4418") * power(Q("86164.090518") / (2 * PI), lift(2)), lift(Fraction(1, 3))))
Cc("Earth.precession", "Earth.precession", E, M33, lambda v: precession(v["epoch"]), post=orthogonal)
Cc("Earth.nutation", "Earth.nutation", E, M33, lambda v: nutation(v["epoch"]))
Cc("Earth.rotation", "Earth.rotation", E, M33, lambda v: rotation(v["epoch"]), post=orthogonal)


# -------------------------------------------------------------- Sun and Moon
def sun_r(e):
    t = jc(e)
    M = rad(Q("357.5256") + Q("35999.049") * t)
    return (Q("149.619") - Q("2.499") * cos(M) - Q("0.021") * cos(2 * M)) * 1000000


def sun(e):
    t = jc(e)
    M = rad(Q("357.5256") + Q("35999.049") * t)
    lam = rad(Q("282.94")) + M + arcsec("6892") * sin(M) + arcsec("72") * sin(2 * M)
    r = sun_r(e)
    return [r * cos(lam), r * sin(lam) * cos(OBL), r * sin(lam) * sin(OBL)]


def moon_angles(e):
    t = jc(e)
    L0 = rad(Q("218.31617") + Q("481267.88088") * t - Q("1.3972") * t)
    l = rad(Q("134.96292") + Q("477198.86753") * t)
    lp = rad(Q("357.52543") + Q("35999.04944") * t)
    F = rad(Q("93.27283") + Q("483202.01873") * t)
    D = rad(Q("297.85027") + Q("445267.11135") * t)
    return L0, l, lp, F, D


def moon_r(e):
    _, l, lp, F, D = moon_angles(e)
    return (385000 - 20905 * cos(l) - 3699 * cos(2 * D - l) - 2956 * cos(2 * D) - 570 * cos(2 * l) + 246 * cos(2 * l - 2 * D)
            - 205 * cos(lp - 2 * D) - 171 * cos(l + 2 * D) - 152 * cos(l + lp - 2 * D))


def moon(e):
    """Montenbruck & Gill 3.47-3.51"""
    L0, l, lp, F, D = moon_angles(e)
    dl = (22640 * sin(l) + 769 * sin(2 * l) - 4586 * sin(l - 2 * D) + 2370 * sin(2 * D) - 668 * sin(lp) - 412 * sin(2 * F) - 212 * sin(2 * l - 2 * D)
          - 206 * sin(l + lp - 2 * D) + 192 * sin(l + 2 * D) - 165 * sin(lp - 2 * D) + 148 * sin(l - lp) - 125 * sin(D) - 110 * sin(l + lp) - 55 * sin(2 * F - 2 * D))
    lam = L0 + arcsec("1") * dl
    beta = arcsec("1") * (18520 * sin(F + lam - L0 + arcsec("412") * sin(2 * F) + arcsec("541") * sin(lp)) - 526 * sin(F - 2 * D) + 44 * sin(l + F - 2 * D)
                          - 31 * sin(-l + F - 2 * D) - 25 * sin(-2 * l + F) - 23 * sin(lp + F - 2 * D) + 21 * sin(-l + F) + 11 * sin(-lp + F - 2 * D))
    r = moon_r(e)
    x, y, z = r * cos(lam) * cos(beta), r * sin(lam) * cos(beta), r * sin(beta)
    return [x, y * cos(OBL) - z * sin(OBL), y * sin(OBL) + z * cos(OBL)]


WIDE = EpochTy(-20000.0, 110000.0)
Cc("Sun.position", "Sun.get_position", [("epoch", WIDE)], V3, lambda v: sun(v["epoch"]), tol=1e-6, opaque=lambda v: (ufvec("sun", v["epoch"]), far_facts(v, ufvec("sun", v["epoch"]), 147000000, 152200000)),
   post=lambda v, r: [("in the ecliptic plane", eq(r[1] * sin(OBL), r[2] * cos(OBL))), ("distance", eq(norm2(r), power(sun_r(v["epoch"]), 2))),
                      ("distance bounds", land(le(Q("147.0e6"), sun_r(v["epoch"])), le(sun_r(v["epoch"]), Q("152.2e6"))))])
Cc("Moon.position", "Moon.get_position", [("epoch", WIDE)], V3, lambda v: moon(v["epoch"]), tol=1e-6, opaque=lambda v: (ufvec("moon", v["epoch"]), far_facts(v, ufvec("moon", v["epoch"]), 355000, 415000)),
   post=lambda v, r: [("distance", eq(norm2(r), power(moon_r(v["epoch"]), 2))),
                      ("distance bounds", land(le(355000, moon_r(v["epoch"])), le(moon_r(v["epoch"]), 415000)))])


def ufvec(name, *args):
    return [uf(f"{name}.{c}", *args) for c in "xyz"]


def far_facts(v, x, lo, hi):
    return [le(lo * lo, norm2(x)), le(norm2(x), hi * hi)]


# ------------------------------------------------------- position conversions
PE = [("pos", POS), ("epoch", EPOCH)]


def Pc(id, target, params, result, spec, **k):
    return Contract("pos." + id, PO + target, params, result, spec, **k)


def to_mod(x, e):
    return mv(precession(e), x)


def to_tod(x, e):
    return mv(nutation(e), to_mod(x, e))


def to_itrf(x, e):
    return mv(rotation(e), to_tod(x, e))


def itrf_tod(x, e):
    return mv(tr(rotation(e)), x)


def itrf_mod(x, e):
    return mv(tr(nutation(e)), itrf_tod(x, e))


def itrf_gcrf(x, e):
    return mv(tr(precession(e)), itrf_mod(x, e))


def itrf_ijk(x, e):
    return mv(rz(-gha(e)), x)


W = lambda f: (lambda v: f(v["pos"], v["epoch"]))
Pc("gcrf.to_mod", "_PositionConvertGCRF.to_mod", PE, V3, W(to_mod), post=lambda v, r: [("length", eq(norm2(r), norm2(v["pos"])))])
Pc("gcrf.to_tod", "_PositionConvertGCRF.to_tod", PE, V3, W(to_tod))
Pc("gcrf.to_itrf", "_PositionConvertGCRF.to_itrf", PE, V3, W(to_itrf))
Pc("gcrf.to_ijk", "_PositionConvertGCRF.to_ijk", PE, V3, lambda v: itrf_ijk(to_itrf(v["pos"], v["epoch"]), v["epoch"]))
Pc("itrf.to_tod", "_PositionConvertITRF.to_tod", PE, V3, W(itrf_tod), post=lambda v, r: [("length", eq(norm2(r), norm2(v["pos"])))])
Pc("itrf.to_mod", "_PositionConvertITRF.to_mod", PE, V3, W(itrf_mod))
Pc("itrf.to_gcrf", "_PositionConvertITRF.to_gcrf", PE, V3, W(itrf_gcrf))
Pc("itrf.to_ijk", "_PositionConvertITRF.to_ijk", PE, V3, W(itrf_ijk), post=lambda v, r: [("length", eq(norm2(r), norm2(v["pos"]))), ("pole kept", eq(r[2], v["pos"][2]))])


def rt_parts(v):
    e = v["epoch"]
    k = [deps(e), -dpsi(e) * sin(obliquity(e)), dpsi(e) * cos(obliquity(e))]
    y = to_mod(v["pos"], e)
    return norm2(k), dot(k, y), norm2(v["pos"])


def rt_facts(v, r):
    K, D, X = rt_parts(v)
    err = norm2(sub(r, v["pos"]))
    f1 = eq(err, K * (K * X - D * D))
    c = Q("1.1e-8")
    f2 = eq(K, deps(v["epoch"]) * deps(v["epoch"]) + dpsi(v["epoch"]) * dpsi(v["epoch"]))
    s2 = deps(v["epoch"]) * deps(v["epoch"]) + dpsi(v["epoch"]) * dpsi(v["epoch"])
    f3 = le(s2, c)
    f4 = le(K, c)
    return [f1, f2, f3, ("gen", f4, [f2, f3], [K, s2]), le(ZERO, K), le(ZERO, X),
            ("gen", le(K * X, c * X), [f4, le(ZERO, X)], [K, X]),
            ("gen", le(err, c * c * X), [f1, f4, le(ZERO, K), le(ZERO, X), le(K * X, c * X)], [err, K, X, D])]


Contract("pos.lemma.roundtrip", None, PE, V3, None, call=lambda ns, o: ns.get(PO + "PositionConvert").itrf.to_gcrf(ns.get(PO + "PositionConvert").gcrf.to_itrf(o["pos"], o["epoch"]), o["epoch"]),
         stub=False, facts=rt_facts, post=lambda v, r: [("returns to the start", le(norm2(sub(r, v["pos"])), power(Q("1.1e-8"), 2) * norm2(v["pos"])))], timeout=60, tol=1e-15, scale=1)
