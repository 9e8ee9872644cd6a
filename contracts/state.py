"""Contracts of openspace.coordinates.states (construction, relative frames) and the Hill propagator."""
import math
from dv.engine import Contract
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from dv.terms import diff
from contracts.timefn import MUE

ST = "openspace.coordinates.states:"
R = Real()
Z3 = [ZERO, ZERO, ZERO]


def Sc(id, target, params, result, spec, **k):
    return Contract("state." + id, ST + target if target else None, params, result, spec, **k)


SP = [("epoch", EPOCH), ("r", POS), ("v", VEL)]
for cls, ty in (("State", StateTy("State")), ("ITRF", ITRF), ("HCW", HCW), ("IJK", IJK)):
    Sc(cls, cls, SP, ty, lambda v: state(v["epoch"], v["r"], v["v"]), stub=False)
    Sc(cls + ".copy", cls + ".copy", [("self", ty)], ty, lambda v: v["self"], stub=False)
Sc("GCRF", "GCRF", SP, GCRF, lambda v: gcrf(v["epoch"], v["r"], v["v"]), stub=False)


Sc("State.vector_list", "State.vector_list", [("self", StateTy("State"))], ListOf(V3, V3), lambda v: [v["self"]["position"], v["self"]["velocity"]])


def same_but_srp(s):
    return {**s, "srp_scalar": ANY}


srp_post = lambda old, new: [("radiation pressure coefficient kept", eq(new["srp_scalar"], old["srp_scalar"])),
                             ("radiation pressure coefficient kept or zero", lor(eq(new["srp_scalar"], old["srp_scalar"]), eq(new["srp_scalar"], 0)))]
Sc("GCRF.copy", "GCRF.copy", [("self", GCRF)], GCRF, lambda v: same_but_srp(v["self"]), stub=False)
SRP = StateTy("GCRF", extra={"thrust": Vec(3, -1e-4, 1e-4), "srp_scalar": Real(0, 0.1, (0.05,)), "use_perturbations": BOOL})
Sc("GCRF.copy.srp", "GCRF.copy", [("self", SRP)], SRP, lambda v: same_but_srp(v["self"]), post=lambda v, r: srp_post(v["self"], r), stub=False)
Sc("ITRF.from_fixed", "ITRF.from_fixed", [("epoch", EPOCH), ("r", POS)], ITRF, lambda v: state(v["epoch"], v["r"], Z3), stub=False)
Sc("HCW.from_state_vector", "HCW.from_state_vector", [("x", V6)], HCW, lambda v: {**state(ZERO, v["x"][:3], v["x"][3:]), "epoch": ANY}, stub=False)


# ------------------------------------------------------------- relative frames
def frame(o):
    r, h = o["position"], cross(o["position"], o["velocity"])
    e, c = unit(r), unit(h)
    return [e, cross(c, e), c]


def turning(o):
    return [nonzero(cross(o["position"], o["velocity"]))]


def frame_post(v, m):
    o = v["origin"]
    return [("orthonormal", land([veq(x, y) for x, y in zip(mm(m, tr(m)), ident(3))])), ("right-handed", eq(det3(m), 1)),
            ("radial along position", veq(scale(m[0], mag(o["position"])), o["position"])),
            ("cross-track along angular momentum", veq(scale(m[2], mag(cross(o["position"], o["velocity"]))), cross(o["position"], o["velocity"]))),
            ("in-track forward", eq(dot(m[1], o["velocity"]) * mag(o["position"]), mag(cross(o["position"], o["velocity"]))))]


OG = StateTy("GCRF", extra={"use_perturbations": BOOL})
ORIGIN = StateTy("GCRF")
Sc("HCW.frame_matrix", "HCW.frame_matrix", [("origin", ORIGIN)], M33, lambda v: frame(v["origin"]), requires=lambda v: turning(v["origin"]), post=frame_post)


def to_hcw(o, s):
    """curvilinear relative state: radial offset, in-track and cross-track angles times the origin radius"""
    F = frame(o)
    w, u, t = mv(F, s["position"]), mv(F, s["velocity"]), mv(F, o["velocity"])
    Ro, Rs = mag(o["position"]), mag(s["position"])
    rho2 = w[0] * w[0] + w[1] * w[1]
    rho = sqrt(rho2)
    lam, phi = atan2(w[1], w[0]), asin(div(w[2], Rs))
    r = [Rs - Ro, lam * Ro, phi * Ro]
    lamdot = div(w[0] * u[1] - w[1] * u[0], rho2)
    phidot = div(u[2] * (Rs * Rs) - w[2] * dot(w, u), Rs * Rs * rho)
    v = [div(dot(w, u), Rs) - t[0], Ro * (lamdot - div(t[1], Ro)), Ro * phidot]
    return state(o["epoch"], r, v)


def to_gcrf(h, o):
    F = frame(o)
    t = mv(F, o["velocity"])
    Ro = mag(o["position"])
    Rs = Ro + h["position"][0]
    lam, phi = div(h["position"][1], Ro), div(h["position"][2], Ro)
    rd = h["velocity"][0] + t[0]
    ld = div(h["velocity"][1] + t[1], Ro)
    pd = div(h["velocity"][2], Ro)
    e = [cos(phi) * cos(lam), cos(phi) * sin(lam), sin(phi)]
    ephi = [-sin(phi) * cos(lam), -sin(phi) * sin(lam), cos(phi)]
    elam = [-sin(lam) * cos(phi), cos(lam) * cos(phi), ZERO]
    r = scale(e, Rs)
    v = [e[i] * rd + Rs * (ephi[i] * pd + elam[i] * ld) for i in range(3)]
    return gcrf(o["epoch"], mv(tr(F), r), mv(tr(F), v))


# every state with nonzero angular momentum is R*F0, F^T(vr, vt, 0) for a rotation F = R3(u) R1(i) R3(raan), R > 0, vt > 0
ORB = [("R", Real(6600, 60000, (), log=True)), ("vr", Real(-3, 3)), ("vt", Real(0.5, 9, ())), ("Om", ANG), ("inc", Real(0.0, math.pi, (0.0, math.pi, 1.0))), ("u", ANG)]


def euler(v):
    O, i, u = v["Om"], v["inc"], v["u"]
    P = [cos(O), sin(O), ZERO]
    N = [-sin(O) * cos(i), cos(O) * cos(i), sin(i)]
    W = [sin(O) * sin(i), -cos(O) * sin(i), cos(i)]
    return [add(scale(P, cos(u)), scale(N, sin(u))), sub(scale(N, cos(u)), scale(P, sin(u))), W]


def tie_orbit(name):
    def f(v):
        F = euler(v)
        v[name]["position"] = scale(F[0], v["R"])
        v[name]["velocity"] = add(scale(F[0], v["vr"]), scale(F[1], v["vt"]))

    return f


orb_where = lambda v: [lt(ZERO, v["R"]), lt(ZERO, v["vt"])]


def same_frame(callee, caller, p):
    """inside these proofs the orbit frame is its Euler-angle form (obligation: equal to the contract's)"""
    F, G = euler(caller), frame(callee["origin"])
    for i in range(3):
        for j in range(3):
            p.oblige("pre", f"frame {i}{j}", eq(F[i][j], G[i][j]))
    return F


W3 = Vec(3, -9000.0, 9000.0)
WV = Vec(3, -9.0, 9.0)


def tie_pair(v):
    tie_orbit("origin")(v)
    F = tr(euler(v))
    v["state"]["position"] = mv(F, v["w"])
    v["state"]["velocity"] = mv(F, v["wv"])


def hcw_gen(r, v):
    if r.random() < 0.5:
        k = 10 ** r.uniform(-2, 3)
        v["w"] = [v["R"] + r.gauss(0, k), r.gauss(0, k), r.gauss(0, k)]
        v["wv"] = [v["vr"] + r.gauss(0, k * 1e-3), v["vt"] + r.gauss(0, k * 1e-3), r.gauss(0, k * 1e-3)]


def off_axis(o, s):
    h = cross(o["position"], o["velocity"])
    return [nonzero(h), nonzero(cross(h, s["position"]))]


PAIR = dict(ghosts=ORB + [("w", W3), ("wv", WV)], tie=tie_pair, where=lambda v: orb_where(v) + [lt(ZERO, v["w"][0] * v["w"][0] + v["w"][1] * v["w"][1])], gen=hcw_gen,
            override={"state.HCW.frame_matrix": same_frame}, note="proved in orbit-frame coordinates (a surjective change of variables)")


def hcw_of(F, o, s, Ro, Rs):
    """curvilinear relative state: radial offset, in-track and cross-track angles times the origin radius"""
    w, u, t = mv(F, s["position"]), mv(F, s["velocity"]), mv(F, o["velocity"])
    rho2 = w[0] * w[0] + w[1] * w[1]
    rho = sqrt(rho2)
    lam, phi = atan2(w[1], w[0]), asin(div(w[2], Rs))
    r = [Rs - Ro, lam * Ro, phi * Ro]
    lamdot = div(w[0] * u[1] - w[1] * u[0], rho2)
    phidot = div(u[2] * (Rs * Rs) - w[2] * dot(w, u), Rs * Rs * rho)
    v = [div(dot(w, u), Rs) - t[0], Ro * (lamdot - div(t[1], Ro)), Ro * phidot]
    return state(o["epoch"], r, v)


def to_hcw(o, s):
    return hcw_of(frame(o), o, s, mag(o["position"]), mag(s["position"]))


Sc("gcrf.to_hcw", "_StateConvertGCRF.to_hcw", [("origin", ORIGIN), ("state", ORIGIN)], HCW, lambda v: to_hcw(v["origin"], v["state"]),
   requires=lambda v: off_axis(v["origin"], v["state"]), tol=1e-6, timeout=60, **PAIR)
Sc("hcw.to_gcrf", "_StateConvertHCW.to_gcrf", [("state", HCW), ("origin", ORIGIN)], GCRF, lambda v: to_gcrf(v["state"], v["origin"]),
   requires=lambda v: turning(v["origin"]), tol=1e-6, timeout=60)


def conv(ns):
    return ns.get(ST + "StateConvert")


Sc("lemma.origin_is_zero", None, [("origin", ORIGIN)], HCW, lambda v: state(v["origin"]["epoch"], Z3, Z3), requires=lambda v: turning(v["origin"]),
   call=lambda ns, o: conv(ns).gcrf.to_hcw(o["origin"], o["origin"]), stub=False, tol=1e-9, scale=1)
Sc("lemma.inertial_roundtrip", None, [("origin", ORIGIN), ("state", ORIGIN)], GCRF,
   lambda v: gcrf(v["origin"]["epoch"], v["state"]["position"], v["state"]["velocity"]),
   requires=lambda v: off_axis(v["origin"], v["state"]), tol=1e-6, timeout=120, **PAIR,
   call=lambda ns, o: conv(ns).hcw.to_gcrf(conv(ns).gcrf.to_hcw(o["origin"], o["state"]), o["origin"]), stub=False)


def rel_where(v):
    return orb_where(v) + [lt(ZERO, v["R"] + v["state"]["position"][0]), lt(-PI, v["lam"]), lt(v["lam"], PI), lt(-PI / 2, v["phi"]), lt(v["phi"], PI / 2)]


def rel_requires(v):
    """less than half a turn along the orbit and a quarter turn across it"""
    (x, y, z), R = v["state"]["position"], mag(v["origin"]["position"])
    return turning(v["origin"]) + [lt(ZERO, R + x), lt(-PI * R, y), lt(y, PI * R), lt(-PI * R / 2, z), lt(z, PI * R / 2)]


def tie_rel(v):
    tie_orbit("origin")(v)
    p = v["state"]["position"]
    v["state"]["position"] = [p[0], v["R"] * v["lam"], v["R"] * v["phi"]]


Sc("lemma.relative_roundtrip", None, [("origin", ORIGIN), ("state", HCW)], HCW,
   lambda v: state(v["origin"]["epoch"], v["state"]["position"], v["state"]["velocity"]), requires=rel_requires, where=rel_where, tie=tie_rel, tol=1e-6, scale=1e4, timeout=60,
   ghosts=ORB + [("lam", Real(-3.14, 3.14)), ("phi", Real(-1.5, 1.5))],
   note=PAIR["note"], call=lambda ns, o: conv(ns).gcrf.to_hcw(o["origin"], conv(ns).hcw.to_gcrf(o["state"], o["origin"])), stub=False)

# ------------------------------------------------------------------ Hill
RE = "openspace.propagators.relative:"
HILL = Rec(RE + "Hill", {"state": HCW, "sma": Real(6600, 60000, (), log=True), "n": Real(1e-5, 1e-3, ()), "step_size": Real(-5000, 5000)}, ctor=["state", "sma"])


def Hc(id, target, params, result, spec, **k):
    return Contract("hill." + id, RE + target if target else None, params, result, spec, **k)


def cw(n, t):
    """Clohessy-Wiltshire transition matrix (Vallado / Curtis)"""
    s, c = sin(n * t), cos(n * t)
    i = div(ONE, n)
    return [[4 - 3 * c, ZERO, ZERO, s * i, 2 * (1 - c) * i, ZERO],
            [6 * (s - n * t), ONE, ZERO, -2 * (1 - c) * i, (4 * s - 3 * n * t) * i, ZERO],
            [ZERO, ZERO, c, ZERO, ZERO, s * i],
            [3 * n * s, ZERO, ZERO, c, 2 * s, ZERO],
            [-6 * n * (1 - c), ZERO, ZERO, -2 * s, 4 * c - 3, ZERO],
            [ZERO, ZERO, -n * s, ZERO, ZERO, c]]


nn = lambda v: [lt(ZERO, v["self"]["n"])]
nna = lambda v: nn(v) + [lt(ZERO, v["self"]["sma"])]
Hc("Hill", "Hill", [("state", HCW), ("sma", Real(6600, 60000, (), log=True))], HILL, lambda v: {"state": v["state"], "sma": v["sma"], "n": sqrt(div(MUE, power(v["sma"], 3))), "step_size": ANY},
   requires=lambda v: [lt(ZERO, v["sma"])], stub=False)


def cw_rates(v, m):
    if v.get("_concrete"):
        return []
    n, t = v["self"]["n"], v["t"]
    A = [[ZERO] * 6 for _ in range(6)]
    for i in range(3):
        A[i][i + 3] = ONE
    A[3][0], A[3][4], A[4][3], A[5][2] = 3 * n * n, 2 * n, -2 * n, -n * n
    return [("Clohessy-Wiltshire equations", land([eq(diff(lift(m[i][j]), t), dot(A[i], [r[j] for r in m])) for i in range(6) for j in range(6)]))]


Hc("system_matrix", "Hill.system_matrix", [("self", HILL), ("t", Real(-90000, 90000))], M66, lambda v: cw(v["self"]["n"], v["t"]), requires=nn, post=cw_rates)
Hc("lemma.identity_at_zero", None, [("self", HILL)], M66, lambda v: ident(6), requires=nn, call=lambda ns, o: o["self"].system_matrix(0), stub=False)
Hc("lemma.composition", None, [("self", HILL), ("t1", Real(-90000, 90000)), ("t2", Real(-90000, 90000))], M66, lambda v: cw(v["self"]["n"], v["t1"] + v["t2"]), requires=nn,
   call=lambda ns, o: o["self"].system_matrix(o["t2"]).multiply_matrix(o["self"].system_matrix(o["t1"])), stub=False, tol=1e-6)


def hill_step(s, t):
    x = mv(cw(s["n"], t), s["state"]["vector"])
    return {**s, "state": {**state(ZERO, x[:3], x[3:]), "epoch": ANY}}


Hc("step_by_seconds", "Hill.step_by_seconds", [("self", HILL), ("t", Real(-90000, 90000))], None, None, requires=nna, modifies={"self": lambda v: hill_step(v["self"], v["t"])}, stub=False, tol=1e-6)
Hc("step", "Hill.step", [("self", HILL)], None, None, requires=nna, modifies={"self": lambda v: hill_step(v["self"], v["self"]["step_size"])}, stub=False, tol=1e-6)
