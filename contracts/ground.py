"""Contracts of the spherical, geodetic and topocentric conversions, ground sites and observations."""
import math
import mpmath as mp
from dv import terms as tm
from dv.engine import Contract
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from contracts.timefn import gha
from contracts.celestial import PO, ufvec, itrf_gcrf, itrf_ijk, to_itrf, rz

OB = "openspace.estimation.obs:"
R = Real()
SPH = Rec(PO + "SphericalPosition", {"radius": Real(0, 60000), "right_ascension": ANG, "declination": ANG})


def Gc(id, target, params, result, spec, **k):
    return Contract("geo." + id, target, params, result, spec, **k)


def from_sph(s):
    cd = cos(s["declination"])
    return scale([cd * cos(s["right_ascension"]), cd * sin(s["right_ascension"]), sin(s["declination"])], s["radius"])


def ra_of(p):
    return wrap(atan2(p[1], p[0]))


def sph_of(p):
    return {"radius": mag(p), "right_ascension": ra_of(p), "declination": atan2(p[2], sqrt(p[0] * p[0] + p[1] * p[1]))}


def sph_post(v, r):
    p = v["pos"]
    return [("right ascension in a turn", land(le(ZERO, r["right_ascension"]), lt(r["right_ascension"], 2 * PI))),
            ("declination range", land(le(-PI / 2, r["declination"]), le(r["declination"], PI / 2))),
            ("reproduces the vector", veq(from_sph(r), p))]


XY = [{"name": "off axis", "requires": lambda v: [lt(ZERO, v["pos"][0] * v["pos"][0] + v["pos"][1] * v["pos"][1])]},
      {"name": "on axis", "fix": {"pos.0": 0.0, "pos.1": 0.0}, "requires": lambda v: [ne(v["pos"][2], ZERO)]},
      {"name": "zero", "fix": {"pos.0": 0.0, "pos.1": 0.0, "pos.2": 0.0}}]
Gc("SphericalPosition", PO + "SphericalPosition", [("r", R), ("ra", ANG), ("dec", ANG)], SPH, lambda v: {"radius": v["r"], "right_ascension": v["ra"], "declination": v["dec"]}, stub=False)
Gc("SphericalPosition.from_cartesian", PO + "SphericalPosition.from_cartesian", [("pos", DIR)], SPH, lambda v: sph_of(v["pos"]), post=sph_post, cases=XY)
Gc("SphericalPosition.to_cartesian", PO + "SphericalPosition.to_cartesian", [("self", SPH)], V3, lambda v: from_sph(v["self"]))


def enz(lam, phi):
    """rows: east, north, zenith at longitude lam and geodetic latitude phi"""
    return [[-sin(lam), cos(lam), ZERO], [-sin(phi) * cos(lam), -sin(phi) * sin(lam), cos(phi)], [cos(phi) * cos(lam), cos(phi) * sin(lam), sin(phi)]]


def orthonormal(v, m):
    return [("orthonormal", land([veq(x, y) for x, y in zip(mm(m, tr(m)), ident(3))])), ("right-handed", eq(det3(m), 1))]


Gc("ENZ.matrix", PO + "ENZ.matrix", [("lamb", ANG), ("psi", ANG)], M33, lambda v: enz(v["lamb"], v["psi"]), post=orthonormal)
LLA = Rec(PO + "LLA", {"latitude": Real(-math.pi / 2, math.pi / 2, (0.0, math.pi / 2, -math.pi / 2)), "longitude": Real(0.0, 6.283, (0.0, math.pi)), "altitude": Real(-5.0, 40000.0, (0.0,))})
Gc("LLA", PO + "LLA", [("lat", R), ("longit", R), ("alt", R)], LLA, lambda v: {"latitude": v["lat"], "longitude": v["longit"], "altitude": v["alt"]}, stub=False)
Gc("LLA.copy", PO + "LLA.copy", [("self", LLA)], LLA, lambda v: v["self"], stub=False)

RE = Q("6378.137")
FL = 1 / Q("298.2572235")
E2 = FL * (2 - FL)


def prime_vertical(phi):
    return div(RE, sqrt(1 - E2 * sin(phi) * sin(phi)))


def lla_itrf(l):
    phi, lam, h = l["latitude"], l["longitude"], l["altitude"]
    n = prime_vertical(phi)
    return [(n + h) * cos(phi) * cos(lam), (n + h) * cos(phi) * sin(lam), (n * (1 - E2) + h) * sin(phi)]


Gc("lla.to_itrf", PO + "_PositionConvertLLA.to_itrf", [("lla", LLA)], V3, lambda v: lla_itrf(v["lla"]))
Gc("enz.to_itrf", PO + "_PositionConvertENZ.to_itrf", [("lla", LLA), ("enz", DIR)], V3, lambda v: mv(tr(enz(v["lla"]["longitude"], v["lla"]["latitude"])), v["enz"]))

# -------------------------------------------------------------- geodetic inverse
MINR = 1000


def lla_uf(p):
    return {"latitude": uf("latitude", *p), "longitude": uf("longitude", *p), "altitude": uf("altitude", *p)}


def geodetic_num(x, y, z):
    """40-digit geodetic coordinates by fixed-point iteration (numeric oracle for samples)"""
    key = (x, y, z)
    if key in _GEO:
        return _GEO[key]
    a, e2 = RE.num(), E2.num()
    rho = mp.sqrt(x * x + y * y)
    lon = mp.atan2(y, x) if rho > 0 else mp.mpf(0)
    if lon < 0:
        lon += 2 * mp.pi
    b = a * mp.sqrt(1 - e2)
    ep2 = e2 / (1 - e2)
    # parametric latitude iteration, then Newton on tan(beta) equation rho*a*sin - z*b*cos = (a^2-b^2) sin cos
    be = mp.atan2(abs(z) * a, rho * b)
    c2 = a * a - b * b
    for _ in range(200):
        f = rho * a * mp.sin(be) - abs(z) * b * mp.cos(be) - c2 * mp.sin(be) * mp.cos(be)
        d = rho * a * mp.cos(be) + abs(z) * b * mp.sin(be) - c2 * mp.cos(2 * be)
        st = f / d
        be -= st
        if abs(st) < mp.mpf(10) ** -55:
            break
    lat = mp.atan2(a * mp.sin(be), b * mp.cos(be)) if be < mp.pi / 2 else mp.pi / 2
    lat = min(max(lat, mp.mpf(0)), mp.pi / 2)
    n = a / mp.sqrt(1 - e2 * mp.sin(lat) ** 2)
    h = rho * mp.cos(lat) + abs(z) * mp.sin(lat) - a * a / n
    if z < 0:
        lat = -lat
    _GEO[key] = (lat, lon, h)
    if len(_GEO) > 5000:
        _GEO.clear()
    return lat, lon, h


_GEO = {}
for _i, _n in enumerate(("latitude", "longitude", "altitude")):
    tm.UF_IMPL[_n] = lambda x, y, z, i=_i: geodetic_num(x, y, z)[i]


def lla_ranges(p, r):
    lat, lon = r["latitude"], r["longitude"]
    return [("latitude range", land(le(-PI / 2, lat), le(lat, PI / 2))), ("longitude range", land(le(ZERO, lon), lt(lon, 2 * PI))),
            ("latitude has the sign of z", land(lor(le(p[2], 0), lt(ZERO, lat)), lor(le(0, p[2]), lt(lat, ZERO)), lor(ne(p[2], 0), eq(lat, 0))))]


def lla_post(v, r):
    return lla_ranges(v["pos"], r) + [("same position", veq(lla_itrf(r), v["pos"]))]


def lla_opaque(v):
    r = lla_uf(v["pos"])
    fs = []
    for _, f in lla_post(v, r):
        fs += f[1] if isinstance(f, tuple) and f[0] == "and" else [f]
    return r, fs


class SurfacePos(PosTy):
    """an Earth-fixed position, often on the equator, the axis, or with negative components"""

    def __init__(s, lo=1001.0, hi=60000.0):
        super().__init__(lo, hi, 0.35)

    def sample(s, r):
        v = super().sample(r)
        if r.random() < 0.2:
            k = 10 ** r.uniform(-9, -2)
            i = r.randrange(3)
            v[i] *= k
        return v


SURF = SurfacePos()
off = lambda v: lt(ZERO, v["pos"][0] * v["pos"][0] + v["pos"][1] * v["pos"][1])
LLA_CASES = [{"name": "north", "requires": lambda v: [off(v), lt(ZERO, v["pos"][2])], "sg": 1},
             {"name": "south", "requires": lambda v: [off(v), lt(v["pos"][2], ZERO)], "sg": -1},
             {"name": "equator", "fix": {"pos.2": 0.0}, "requires": lambda v: [off(v)], "sg": 0},
             {"name": "north pole", "fix": {"pos.0": 0.0, "pos.1": 0.0}, "requires": lambda v: [lt(ZERO, v["pos"][2])], "sg": 2},
             {"name": "south pole", "fix": {"pos.0": 0.0, "pos.1": 0.0}, "requires": lambda v: [lt(v["pos"][2], ZERO)], "sg": -2}]
far = lambda p: [le(MINR * MINR, norm2(p))]


def pole(zz, a, b, ep):
    g, p, b2 = var("g"), div(zz, ep), b * b
    T_ = div(p * p + b2, 2 * g * g)
    return [(g, sqrt(p * p - b2), [lt(ZERO, p * p - b2), lt(ZERO, g), eq(g * g, p * p - b2)])] + [(t, t) for t in (div(p, g), T_, div(b2, g * g), div(b, g), b, -b, ZERO)]


def sofair(v, case):
    """the chain of Sofair's closed form: each intermediate value with the facts that the next ones need"""
    a, b = RE, RE - FL * RE
    a2, b2 = a * a, b * b
    e2, ep = E2, div(a2, b2) - 1
    x, y, z = v["pos"]
    out = []
    if case["sg"] == 0:
        return out
    if abs(case["sg"]) == 2:
        zz = z if case["sg"] > 0 else -z
        return pole(zz, a, b, ep)
    zz = z if case["sg"] > 0 else -z
    V = lambda n: var(n)
    R, g, u, w_, P, X, Qv, t, c, T_, B_, k, D, N, S, Y, C, W, h = map(var, "R g u v P X Q t c T base k d n sinlat Y coslat W alt".split())
    p = div(zz, ep)
    s = div(R * R, e2 * ep)

    def cut(var_, term, *steps):
        out.append((var_, term, list(steps)))

    R2 = eq(R * R, x * x + y * y)
    cut(R, sqrt(x * x + y * y), lt(ZERO, zz), lt(ZERO, R), R2)
    g2 = eq(g * g, p * p - b2 + s)
    cut(g, sqrt(p * p - b2 + s), lt(ZERO, p * p - b2 + s), lt(ZERO, g), g2)
    cut(u, div(p, g), lt(ZERO, u), eq(u * g, p))
    cut(w_, div(b2 * u * u, g * g), lt(ZERO, w_), eq(w_ * g * g, b2 * u * u))
    Pg = eq(P * g * g, 27 * w_ * s)
    cut(P, div(27 * w_ * s, g * g), lt(ZERO, P), Pg)
    X4 = eq(X * X * X * X + 1, (4 * P + 2) * X * X)
    cut(X, sqrt(P + 1) + sqrt(P), lt(ZERO, X), X4)
    Q6 = eq(Qv * Qv * Qv * Qv * Qv * Qv + 1, (4 * P + 2) * Qv * Qv * Qv)
    Q3 = eq(Qv * Qv * Qv, X * X)
    cut(Qv, power(X, const(Fraction(2, 3))), lt(ZERO, Qv), Q3, ("lin", Q6, [(1, X4), (Qv * Qv * Qv + X * X - (4 * P + 2), Q3)], []))
    tc = eq(54 * t * t * t - 27 * t * t, P)
    tQ = eq(6 * t * Qv, Qv + Qv * Qv + 1)
    cut(t, div(1 + Qv + div(ONE, Qv), 6), tQ, ("use", le(Q("1/2"), t), [tQ, lt(ZERO, Qv)]), ("lin", tc, [(div(ONE, 4 * Qv * Qv * Qv), Q6)]))
    c2 = eq(c * c, u * u - 1 + 2 * t)
    cut(c, sqrt(u * u - 1 + 2 * t), c2, le(ZERO, c), ("use", le(u, c), [c2, le(ZERO, c), lt(ZERO, u), le(Q("1/2"), t)]))
    T2 = eq(T_ * T_, t * t + w_)
    sq = eq(c * T_ * u * (c * T_ * u), (u * u * t + w_) * (u * u * t + w_))
    cT = eq(c * T_ * u, u * u * t + w_)
    cut(T_, sqrt(t * t + w_), T2, lt(ZERO, T_), ("use", lt(t, T_), [T2, lt(ZERO, T_), lt(ZERO, w_), le(Q("1/2"), t)]),
        ("lin", sq, [(div(u * u, 27), tc)], [T_, c, P, w_, u, g]), ("sq", cT))
    w = div(c - u, 2)
    Bw = eq(B_, w * w + T_ - t)
    cut(B_, T_ - u * w - div(t, 2) - Q("1/4"), ("lin", Bw, [(Q("-1/4"), c2)]), ("use", lt(ZERO, B_), [Bw, lt(t, T_)]))
    E_ = eq(k * k + u * k + t, c * k + T_)
    F_ = eq(u * (k * k * k * k + 2 * u * k * k * k + k * k - w_), 2 * w_ * k)
    cut(k, w + sqrt(B_), lt(ZERO, k), ("lin", E_, [(1, Bw)]), ("lin", F_, [(u * (k * k + u * k + t + c * k + T_), E_), (u * k * k, c2), (u, T2), (2 * k, cT)], []))
    G = eq(s * D * D, (b2 - D * D) * (p + D) * (p + D))
    cut(D, g * k, lt(ZERO, D), ("lin", G, [(div(g * g * g * g * g, p), F_)], [D, w_, u, g]), ("use", lt(D * D, b2), [G, lt(ZERO, R), lt(ZERO, D), lt(ZERO, zz)]))
    out.append((-(g * k), -D))
    N2 = eq(N * N * b2, a2 * (b2 + ep * D * D))
    cut(N, a * sqrt(1 + div(ep * D * D, b2)), lt(ZERO, N), N2)
    SN = eq(S * N * b2, a2 * D)
    cut(S, (ep + 1) * div(D, N), lt(ZERO, S), SN, ("lin", eq((1 - S * S) * N * N * b2, a2 * (b2 - D * D)), [(1, N2)]), ("use", lt(S, ONE), [eq((1 - S * S) * N * N * b2, a2 * (b2 - D * D)), lt(D * D, b2), lt(ZERO, N), lt(ZERO, S)]))
    out.append((-S, -S))
    Hs = eq(R * a * D * (R * a * D), b * Y * (zz + ep * D) * (b * Y * (zz + ep * D)))
    H = eq(R * a * D, b * Y * (zz + ep * D))
    Y2 = eq(Y * Y, b2 - D * D)
    cut(Y, sqrt(b2 - D * D), lt(ZERO, Y), Y2, ("lin", Hs, [(a2 * e2 * ep, G), (-b2 * (zz + ep * D) * (zz + ep * D), Y2)], []), ("sq", H))
    CN = eq(C * b * N, a * Y)
    one = eq((1 - S * S) * N * N * b2, a2 * (b2 - D * D))
    cut(C, sqrt(1 - S * S), lt(ZERO, C), eq(C * C, 1 - S * S), ("lin", eq(C * b * N * (C * b * N), a * Y * (a * Y)), [(1, one), (-a2, Y2), (b2 * N * N, eq(C * C, 1 - S * S))], []), ("sq", CN))
    rho = sqrt(x * x + y * y)
    out.append((div(x, rho), div(x, R)))
    out.append((div(y, rho), div(y, R)))
    WN = eq(W * N, a)
    cut(W, sqrt(1 - e2 * S * S), lt(ZERO, W), eq(W * W, 1 - e2 * S * S), ("lin", eq(W * N * (W * N), a * a), [(N * N, eq(W * W, 1 - e2 * S * S)), (div(ONE, b2), N2), (div(-e2 * (S * N * b2 + a2 * D), b2 * b2), SN)], []), ("sq", WN))
    hx = eq((N + h) * C, R)
    hz = eq((N * (1 - e2) + h) * S, zz)
    c0, c2_ = div(a * Y, b * N), eq(C * C, 1 - S * S)
    cut(h, R * C + zz * S - div(a2, N), ("lin", hx, [(R, c2_), (div(S * (ep * D + zz), b * N), CN), (-div(S * a, b2 * N), H)], [h, S, N]),
        ("lin", hz, [(zz, c2_), (div(R * S - zz * (C + c0), b * N), CN), (div(a2 * Y, b2 * b * N * N), H), (div(a2 * ep * D, b2 * N * N), Y2)], [h, S, N]))
    return out


def sofair_gen(r, v):
    """often close to the equator, where a radicand of the closed form is tiny; preferably rounded below zero"""
    if r.random() > 0.25 or v["pos"][0] == v["pos"][1] == 0 or v["pos"][2] == 0:
        return
    a, sg = 6378.137, math.copysign(1.0, v["pos"][2])
    b = a - a / 298.257223563
    e2, ep = 1 - b * b / (a * a), a * a / (b * b) - 1
    for _ in range(400):
        m, t, z = r.uniform(1001, 60000), r.uniform(0, 6.28), 10 ** r.uniform(-9, 1)
        x, y = m * math.cos(t), m * math.sin(t)
        p, s = z / ep, (x * x + y * y) / (e2 * ep)
        q = p * p - b * b + s
        if q <= 0:
            continue
        u = p / math.sqrt(q)
        w = b * b * u * u / q
        P = 27 * w * s / q
        Q_ = (math.sqrt(P + 1) + math.sqrt(P)) ** (2 / 3)
        T_ = (1 + Q_ + 1 / Q_) / 6
        c = math.sqrt(max(0.0, u * u - 1 + 2 * T_))
        v["pos"] = [x, y, sg * z]
        if math.sqrt(T_ * T_ + w) - u * (c - u) / 2 - T_ / 2 - 0.25 < 0:
            return


Gc("itrf.to_lla", PO + "_PositionConvertITRF.to_lla", [("pos", SURF)], LLA, None, requires=lambda v: far(v["pos"]), post=lla_post, opaque=lla_opaque, cases=LLA_CASES, cuts=sofair, gen=sofair_gen, tol=2e-5, mptol=1e-20, quick=40, cost=10)

# ----------------------------------------------------------------- ground sites
TE = "openspace.bodies.terrestrial:"
SITE = Rec(TE + "GroundSite", {"itrf_position": SURF, "latitude": R, "longitude": R, "enz_matrix": M33}, ctor=[])


class SiteTy(Rec):
    """built by the real constructor from geodetic coordinates"""

    def __init__(s):
        s.cls = TE + "GroundSite"
        s.fields = {"lla": LLA}
        s.ctor = ["lla"]
        s.derived = {}

    def view(s, o):
        return {"itrf_position": V3.view(o.itrf_position), "latitude": num(o.latitude), "longitude": num(o.longitude), "enz_matrix": M33.view(o.enz_matrix)}


SITE = SiteTy()


def site(l):
    return {"itrf_position": lla_itrf(l), "latitude": l["latitude"], "longitude": l["longitude"], "enz_matrix": enz(l["longitude"], l["latitude"])}


Gc("GroundSite", TE + "GroundSite", [("lla", LLA)], SITE, lambda v: site(v["lla"]), stub=False)


def from_itrf_spec(v):
    p = v["itrf"]
    l = lla_uf(p)
    return {**site(l), "itrf_position": p}


Gc("GroundSite.from_itrf", TE + "GroundSite.from_itrf_position", [("itrf", SURF)], SITE, from_itrf_spec, requires=lambda v: far(v["itrf"]), stub=False, scale=1, tol=2e-5,
   post=lambda v, r: [(n, f) for n, f in lla_ranges(v["itrf"], r)] + [("zenith through the site latitude", eq(r["enz_matrix"][2][2], sin(r["latitude"])))])


def enz_pos(l, x):
    return mv(enz(l["longitude"], l["latitude"]), sub(x, lla_itrf(l)))


Gc("GroundSite.enz_position", TE + "GroundSite.enz_position", [("self", SITE), ("obj_itrf", POS)], V3, lambda v: enz_pos(v["self"]["lla"], v["obj_itrf"]), stub=False,
   post=lambda v, r: [("range kept", eq(norm2(r), norm2(sub(v["obj_itrf"], lla_itrf(v["self"]["lla"])))))])

# ----------------------------------------------------------------- observations
ERR = Real(0.0, 5.0, (0.0,))


class ObsTy(Rec):
    def __init__(s, name, obs, ang):
        super().__init__(OB + name, {"observer_state": obs, "observed_direction": DIR, "range_error": ERR, "angular_error": Real(0.0, 0.01, (0.0,))},
                         ctor=["observer_state", "observed_direction", "range_error", "angular_error"])
        s.ang = ang

    def close(s, v):
        d = v["observed_direction"]
        if "vector" not in v["observer_state"] or True:
            s.fields["observer_state"].close(v["observer_state"])
        if s.ang[0] == "azimuth":
            d = [d[1], d[0], d[2]]
        q = sph_of(d)
        v["range"], v[s.ang[0]], v[s.ang[1]] = q["radius"], q["right_ascension"], q["declination"]
        if not any(isinstance(x, T) for x in v["observed_direction"]):
            for k in ("range",) + s.ang:
                v[k] = float(v[k].num()) if isinstance(v[k], T) else v[k]
        return v

    def build(s, ns, v):
        o = super().build(ns, v)
        if any(isinstance(x, T) and not x.isconst for x in v["observed_direction"]) and "range" in v:
            # the constructor's own contract: these are the spherical coordinates of the direction
            for k in ("range",) + s.ang:
                setattr(o, k, v[k])
        return o

    def view(s, o):
        v = {k: t.view(getattr(o, k)) for k, t in s.fields.items()}
        for k in ("range",) + s.ang:
            v[k] = num(getattr(o, k))
        return v


SPACE = ObsTy("SpaceObservation", GCRF, ("right_ascension", "declination"))
GROUND = ObsTy("GroundObservation", ITRF, ("azimuth", "elevation"))


def drop_srp(s):
    return {**s, "srp_scalar": ANY}


def space_obs(v):
    d = v["observed_direction"]
    q = sph_of(d)
    return {"observer_state": drop_srp(v["observer_state"]), "observed_direction": d, "range": q["radius"], "right_ascension": q["right_ascension"], "declination": q["declination"],
            "range_error": v["r_error"], "angular_error": v["ang_error"]}


def ground_obs(v):
    """azimuth clockwise from north, elevation above the horizon"""
    d = v["observed_direction"]
    q = sph_of([d[1], d[0], d[2]])
    return {"observer_state": v["observer_state"], "observed_direction": d, "range": q["radius"], "azimuth": q["right_ascension"], "elevation": q["declination"],
            "range_error": v["r_error"], "angular_error": v["ang_error"]}


def azel(r, az, el):
    """east, north, zenith components"""
    return [r * cos(el) * sin(az), r * cos(el) * cos(az), r * sin(el)]


def space_post(v, r):
    return [("direction reproduced", veq(from_sph({"radius": r["range"], "right_ascension": r["right_ascension"], "declination": r["declination"]}), v["observed_direction"]))]


def ground_post(v, r):
    return [("azimuth in a turn", land(le(ZERO, r["azimuth"]), lt(r["azimuth"], 2 * PI))), ("elevation range", land(le(-PI / 2, r["elevation"]), le(r["elevation"], PI / 2))),
            ("azimuth, elevation and range reproduce the direction", veq(azel(r["range"], r["azimuth"], r["elevation"]), v["observed_direction"]))]


def axis_cases(name):
    return [{"name": "off axis", "requires": lambda v: [lt(ZERO, v[name][0] * v[name][0] + v[name][1] * v[name][1])]},
            {"name": "on axis", "fix": {f"{name}.0": 0.0, f"{name}.1": 0.0}, "requires": lambda v: [ne(v[name][2], ZERO)]},
            {"name": "zero", "fix": {f"{name}.{i}": 0.0 for i in range(3)}}]


ODE = [("observed_direction", DIR), ("r_error", ERR), ("ang_error", ERR)]
Gc("SpaceObservation", OB + "SpaceObservation", [("observer_state", GCRF)] + ODE, SPACE, space_obs, stub=False, post=space_post, cases=axis_cases("observed_direction"))
Gc("GroundObservation", OB + "GroundObservation", [("observer_state", ITRF)] + ODE, GROUND, ground_obs, stub=False, post=ground_post, cases=axis_cases("observed_direction"))
Gc("GroundObservation.from_angles", OB + "GroundObservation.from_angles_and_range", [("observer_state", ITRF), ("az", ANG), ("el", ANG), ("r", Real(0.5, 40000)), ("r_error", ERR), ("ang_error", ERR)], GROUND,
   lambda v: ground_obs({**v, "observed_direction": azel(v["r"], v["az"], v["el"])}), requires=lambda v: [lt(ZERO, v["r"])], stub=False)
Gc("lemma.angles_roundtrip", None, [("observer_state", ITRF), ("az", Real(0.0, 6.283)), ("el", Real(-1.57, 1.57)), ("r", Real(0.5, 40000)), ("r_error", ERR), ("ang_error", ERR)], ListOf(R, R, R),
   lambda v: [v["az"], v["el"], v["r"]], requires=lambda v: [lt(ZERO, v["r"]), le(ZERO, v["az"]), lt(v["az"], 2 * PI), lt(-PI / 2, v["el"]), lt(v["el"], PI / 2)], stub=False,
   call=lambda ns, o: (lambda g: [g.azimuth, g.elevation, g.range])(ns.get(OB + "GroundObservation").from_angles_and_range(*[o[k] for k in ("observer_state", "az", "el", "r", "r_error", "ang_error")])))

ep = lambda v: v["self"]["observer_state"]["epoch"]
at = lambda v: v["self"]["observer_state"]["position"]
Gc("SpaceObservation.epoch", OB + "SpaceObservation.epoch", [("self", SPACE)], EPOCH, ep, stub=False)
Gc("GroundObservation.epoch", OB + "GroundObservation.epoch", [("self", GROUND)], EPOCH, ep, stub=False)
Gc("SpaceObservation.ijk", OB + "SpaceObservation.ijk_position", [("self", SPACE)], V3, lambda v: itrf_ijk(to_itrf(add(at(v), v["self"]["observed_direction"]), ep(v)), ep(v)))


def seen(v):
    l = lla_uf(at(v))
    return add(mv(tr(enz(l["longitude"], l["latitude"])), v["self"]["observed_direction"]), at(v))


GP = StateTy("ITRF", pos=SURF, vel=Vec(3, -1.0, 1.0))
GROUNDP = ObsTy("GroundObservation", GP, ("azimuth", "elevation"))
Gc("GroundObservation.ijk", OB + "GroundObservation.ijk_position", [("self", GROUNDP)], V3, lambda v: itrf_ijk(seen(v), ep(v)), requires=lambda v: far(at(v)), tol=2e-5,
   post=lambda v, r: [("range from the observer kept", eq(norm2(sub(r, itrf_ijk(at(v), ep(v)))), norm2(v["self"]["observed_direction"])))])
Gc("GroundObservation.gcrf", OB + "GroundObservation.gcrf_position", [("self", GROUNDP)], V3, lambda v: itrf_gcrf(seen(v), ep(v)), requires=lambda v: far(at(v)), tol=2e-5)
