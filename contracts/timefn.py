"""Contracts of openspace.time, openspace.math.functions and openspace.planning."""
import math
from dv.engine import Contract
from dv.tys import *
from dv.spec import *

R = Real()
TIME = "openspace.time:"
FN = "openspace.math.functions:"

SEC = 86400


def rad(x):
    return lift(x) * PI / 180


# ------------------------------------------------------------------ time
Contract("time.hms", FN + "Conversions.hms_to_decimal_day", [("h", Real(0, 24)), ("m", Real(0, 60)), ("s", Real(0, 60))], R,
         lambda v: (v["h"] * 3600 + v["m"] * 60 + v["s"]) / 86400)
Contract("time.dms", FN + "Conversions.dms_to_radians", [("d", Real(0, 360)), ("m", Real(0, 60)), ("s", Real(0, 60))], R,
         lambda v: rad(v["d"] + lift(v["m"]) / 60 + lift(v["s"]) / 3600))
Contract("time.Epoch", TIME + "Epoch", [("value", Real(40000, 70000))], EPOCH, lambda v: v["value"], stub=False)
Contract("time.Epoch.copy", TIME + "Epoch.copy", [("self", EPOCH)], EPOCH, lambda v: v["self"])
Contract("time.Epoch.plus_days", TIME + "Epoch.plus_days", [("self", EPOCH), ("t", R)], EPOCH, lambda v: v["self"] + v["t"])


def jd(e):
    return e + Q("2400000.5")


def jc(e):
    return (jd(e) - 2451545) / 36525


Contract("time.Epoch.julian_value", TIME + "Epoch.julian_value", [("self", EPOCH)], R, lambda v: jd(v["self"]))
Contract("time.Epoch.julian_centuries", TIME + "Epoch.julian_centuries_past_j2000", [("self", EPOCH)], R, lambda v: jc(v["self"]))

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def rata_die(y, m, d):
    """days since 0000-12-31 in the proleptic Gregorian calendar"""
    p = y - 1
    n = 365 * p + floor(p / 4) - floor(p / 100) + floor(p / 400) + CUM[m - 1] + d
    if m > 2 and leap(y):
        n = n + 1
    return n


def divides(k, y):
    return k * floor(lift(y) / k) == y


def leap(y):
    return bool(divides(4, y)) and (not bool(divides(100, y)) or bool(divides(400, y)))


def greg(v):
    return rata_die(lift(v["year"]), v["month"], v["day"]) - 678576 + (v["hour"] * 3600 + v["minute"] * 60 + v["sec"]) / 86400


def greg_pre(v):
    n = LEN[int(v["month"].num() if isinstance(v["month"], T) else v["month"]) - 1]
    if n == 28:
        n = 29
    return [le(1, v["day"]), le(v["day"], n)]


def greg_spec(v):
    m = v["month"]
    m = int(m.num()) if isinstance(m, T) else m
    return greg(v | {"month": m})


Contract("time.Epoch.from_gregorian", TIME + "Epoch.from_gregorian",
         [("year", Int(1583, 2900)), ("month", Int(1, 12)), ("day", Int(1, 28)), ("hour", Int(0, 23)), ("minute", Int(0, 59)), ("sec", Real(0, 60))],
         EPOCH, greg_spec, requires=greg_pre, cases=[{"name": f"month {m}", "fix": {"month": m}} for m in range(1, 13)], tol=1e-9, cost=5)


def gha_deg(e):
    """(whole-day part, fraction) GMST in degrees of the epoch after removing 69.184 s"""
    u = e - Q("69.184") / SEC
    fr = u - floor(u)
    T0 = (u - fr + Q("2400000.5") - 2451545) / 36525
    return Q("100.4606184") + Q("36000.77004") * T0 + Q("0.000387933") * T0 * T0 + Q("360.98564724") * fr


def gha(e):
    return wrap(rad(gha_deg(e)))


Contract("time.Epoch.gha", TIME + "Epoch.greenwich_hour_angle", [("self", EpochTy(-50000.0, 120000.0))], R, lambda v: gha(v["self"]),
         post=lambda v, r: [("range", land(le(ZERO, r), lt(r, 2 * PI)))], tol=1e-7, scale=1)

# ------------------------------------------------------------- functions
Contract("fn.sign", FN + "sign", [("x", R)], R, lambda v: (ONE if v["x"] > 0 else -ONE if v["x"] < 0 else ZERO))

A = Real(6600, 60000, (), log=True)
MU = Real(1000, 400000, (398600.4418,), p=0.5)
ECC = Real(0.0, 0.95, (0.0, 0.5))


def F(cls, meth, params, spec, req=None, **k):
    return Contract(f"fn.{cls}.{meth}", f"{FN}{cls}.{meth}", params, R, spec, requires=req, **k)


pos = lambda *ns: (lambda v: [lt(ZERO, v[n]) for n in ns])
F("Eccentricity", "from_a_c", [("a", A), ("c", Real(0, 5000))], lambda v: div(v["c"], v["a"]), pos("a"))
F("Eccentricity", "from_a_b", [("a", A), ("b", Real(3000, 6000))], lambda v: sqrt(1 - power(div(v["b"], v["a"]), 2)), lambda v: [lt(ZERO, v["b"]), le(v["b"], v["a"])])
F("Eccentricity", "from_a_p", [("a", A), ("p", Real(3000, 60000))], lambda v: sqrt(1 - div(v["p"], v["a"])), lambda v: [lt(ZERO, v["p"]), le(v["p"], v["a"])],
  float_safe=("sqrt",), gen=lambda r, v: v.__setitem__("p", v["a"] if r.random() < 0.2 else v["a"] * r.random()))
F("Flattening", "from_a_b", [("a", A), ("b", A)], lambda v: 1 - div(v["b"], v["a"]), pos("a"))
F("SemiMajorAxis", "from_mu_n", [("mu", MU), ("n", Real(1e-5, 1e-3, ()))], lambda v: power(div(v["mu"], v["n"] * v["n"]), lift(Fraction(1, 3))), pos("mu", "n"))
F("SemiMajorAxis", "from_mu_tau", [("mu", MU), ("tau", Real(5000, 200000))], lambda v: power(v["mu"] * v["tau"] * v["tau"] / (4 * PI * PI), lift(Fraction(1, 3))), pos("mu", "tau"))
F("SemiMajorAxis", "from_mu_r_v", [("mu", MU), ("r", A), ("v", Real(0, 3))], lambda v: div(v["mu"] * v["r"], 2 * v["mu"] - v["r"] * v["v"] * v["v"]),
  lambda v: [lt(ZERO, v["mu"]), lt(ZERO, v["r"]), lt(v["r"] * v["v"] * v["v"], 2 * v["mu"])])
F("SemiMinorAxis", "from_a_e", [("a", A), ("e", ECC)], lambda v: v["a"] * sqrt(1 - v["e"] * v["e"]), lambda v: [lt(ZERO, v["a"]), le(ZERO, v["e"]), lt(v["e"], 1)])
F("SemiParameter", "from_a_b", [("a", A), ("b", A)], lambda v: div(v["b"] * v["b"], v["a"]), pos("a"))
F("SemiParameter", "from_a_e", [("a", A), ("e", ECC)], lambda v: v["a"] * (1 - v["e"] * v["e"]))
F("SemiParameter", "from_mu_h", [("mu", MU), ("h", Real(1e3, 1e6))], lambda v: div(v["h"] * v["h"], v["mu"]), pos("mu"))
F("ArealVelocity", "from_r_v_phi", [("r", A), ("v", Real(0, 10)), ("phi", ANG)], lambda v: v["r"] * v["v"] * cos(v["phi"]))
F("ArealVelocity", "from_mu_p", [("mu", MU), ("p", A)], lambda v: sqrt(v["mu"] * v["p"]), pos("mu", "p"))
Contract("fn.ArealVelocity.from_r_v", FN + "ArealVelocity.from_r_v", [("r", POS), ("v", VEL)], V3, lambda v: cross(v["r"], v["v"]))
F("Radius", "from_p_e_nu", [("p", A), ("e", ECC), ("nu", ANG)], lambda v: div(v["p"], 1 + v["e"] * cos(v["nu"])), lambda v: [le(ZERO, v["e"]), lt(v["e"], 1)])
F("SpecificMechanicalEnergy", "from_mu_r_v", [("mu", MU), ("r", A), ("v", Real(0, 10))], lambda v: v["v"] * v["v"] / 2 - div(v["mu"], v["r"]), pos("r"))
F("SpecificMechanicalEnergy", "from_mu_a", [("mu", MU), ("a", A)], lambda v: -div(v["mu"], 2 * v["a"]), pos("a"))
F("VisVivaVelocity", "from_a_mu_r", [("a", A), ("mu", MU), ("r", A)], lambda v: sqrt(v["mu"] * (div(lift(2), v["r"]) - div(ONE, v["a"]))),
  lambda v: [lt(ZERO, v["a"]), lt(ZERO, v["r"]), lt(ZERO, v["mu"]), le(v["r"], 2 * v["a"])])
F("VisVivaVelocity", "from_mu_r_xi", [("mu", MU), ("r", A), ("xi", Real(-5, 0))], lambda v: sqrt(2 * (v["xi"] + div(v["mu"], v["r"]))),
  lambda v: [lt(ZERO, v["mu"]), lt(ZERO, v["r"]), le(ZERO, v["xi"] * v["r"] + v["mu"])])
F("VisVivaVelocity", "from_mu_r_e_nu", [("mu", MU), ("r", A), ("e", ECC), ("nu", ANG)],
  lambda v: sqrt(div(v["mu"] * (1 + 2 * v["e"] * cos(v["nu"]) + v["e"] * v["e"]), v["r"] * (1 + v["e"] * cos(v["nu"])))),
  lambda v: [lt(ZERO, v["mu"]), lt(ZERO, v["r"]), le(ZERO, v["e"]), lt(v["e"], 1)])
F("Period", "from_a_mu", [("a", A), ("mu", MU)], lambda v: 2 * PI * sqrt(div(power(v["a"], lift(3)), v["mu"])), pos("a", "mu"))
F("MeanMotion", "from_a_mu", [("a", A), ("mu", MU)], lambda v: sqrt(div(v["mu"], power(v["a"], lift(3)))), pos("a", "mu"))
F("MeanMotion", "from_tau", [("tau", Real(5000, 200000))], lambda v: div(2 * PI, v["tau"]), pos("tau"))


# angles
def atan_wrap(y, x):
    return wrap(atan2(y, x))


def raan_spec(v):
    w = v["w"]
    if w[0] == 0 and w[1] == 0:
        return ZERO
    return atan_wrap(w[0], -w[1])


in_turn = lambda v, r: [("range", land(le(ZERO, r), lt(r, 2 * PI)))]
F("RightAscensionNode", "from_w", [("w", V3)], raan_spec, post=in_turn)
F("Inclination", "from_w", [("w", V3)], lambda v: acos(div(v["w"][2], mag(v["w"]))), lambda v: [nonzero(v["w"])],
  post=lambda v, r: [("range", land(le(ZERO, r), le(r, PI)))])


def u_spec(v):
    r, w = v["r"], v["w"]
    if w[0] == 0 and w[1] == 0:
        return atan_wrap(r[1] * (1 if w[2] > 0 else -1 if w[2] < 0 else 0), r[0])
    return atan_wrap(r[2], r[1] * w[0] - r[0] * w[1])


F("ArgumentOfLatitude", "from_r_w", [("r", POS), ("w", V3)], u_spec, post=in_turn)
F("EccentricAnomaly", "from_rdv_r_a_n", [("rdv", Real(-1e5, 1e5)), ("r", A), ("a", A), ("n", Real(1e-5, 1e-3, ()))],
  lambda v: atan_wrap(div(v["rdv"], v["a"] * v["a"] * v["n"]), 1 - div(v["r"], v["a"])), pos("r", "a", "n"), post=in_turn)
F("TrueAnomaly", "from_e_ea", [("e", ECC), ("ea", ANG)], lambda v: atan_wrap(sqrt(1 - v["e"] * v["e"]) * sin(v["ea"]), cos(v["ea"]) - v["e"]),
  lambda v: [le(ZERO, v["e"]), lt(v["e"], 1)],
  post=lambda v, r: in_turn(v, r) + [
      ("cos nu", eq(cos(r) * (1 - v["e"] * cos(v["ea"])), cos(v["ea"]) - v["e"])),
      ("sin nu", eq(sin(r) * (1 - v["e"] * cos(v["ea"])), sqrt(1 - v["e"] * v["e"]) * sin(v["ea"])))])
TURN = Real(0.0, 6.283, (0.0, math.pi))
F("ArgumentOfPerigee", "from_u_nu", [("u", TURN), ("nu", TURN)], lambda v: wrap(v["u"] - v["nu"]),
  lambda v: [le(ZERO, v["u"]), lt(v["u"], 2 * PI), le(ZERO, v["nu"]), lt(v["nu"], 2 * PI)], post=in_turn)


def ma_spec(v):
    m = v["ea"] - v["e"] * sin(v["ea"])
    return m + 2 * PI if m < 0 else m


F("MeanAnomaly", "from_ea_e", [("ea", Real(-6.283, 6.283, (0.0, math.pi, -1e-9))), ("e", ECC)], ma_spec,
  lambda v: [lt(-2 * PI, v["ea"]), lt(v["ea"], 2 * PI), le(ZERO, v["e"]), lt(v["e"], 1)], post=in_turn, derived=lambda v, r: [le(ZERO, r), lt(r, 2 * PI)])


def kepler_post(v, r):
    res = r - v["e"] * sin(r) - v["ma"]
    t = Q("1e-11")
    return [("Kepler's equation", lor(land(le(-t, res), le(res, t)), land(le(-t, res - 2 * PI), le(res - 2 * PI, t)))),
            ("not negative", le(ZERO, r)), ("within a turn", lt(r, 2 * PI + (Q("1e-3") if v.get("_concrete") else v["e"] + t)))]


def near_parabolic(r, v):
    """a third of the sampled inputs where Newton's iteration needs most steps"""
    if r.random() < 0.35:
        v["e"] = 1 - 10 ** r.uniform(-3.5, -1.2)
        d = 10 ** r.uniform(-5, -0.5)
        v["ma"] = r.choice([d, -d, 2 * math.pi - d])


Contract("fn.EccentricAnomaly.from_ma_e", FN + "EccentricAnomaly.from_ma_e", [("ma", Real(-3.0, 6.28, (0.0, 1e-3, math.pi, 6.2831853))), ("e", ECC)], R, None,
         requires=lambda v: [le(ZERO, v["e"]), lt(v["e"], 1), lt(-PI, v["ma"]), lt(v["ma"], 2 * PI)], post=kepler_post, gen=near_parabolic,
         note="termination of the Newton iteration is not proved (partial correctness)", cost=5)

# ------------------------------------------- consistency of the two-body relations
EQ = "openspace.math.functions:EquationsOfMotion"


def L(name, params, call, spec, req, result=R, **k):
    return Contract("fn.lemma." + name, None, params, result, spec, requires=req, call=lambda ns, o: call(ns.get(EQ), {**o, "_ns": ns}), stub=False, **k)


ell = lambda v: [lt(ZERO, v["a"]), lt(ZERO, v["mu"])] + ([le(ZERO, v["e"]), lt(v["e"], 1)] if "e" in v else [])
AM = [("a", A), ("mu", MU)]
AE = [("a", A), ("mu", MU), ("e", ECC)]
L("axis_of_period", AM, lambda q, o: q.A.from_mu_tau(o["mu"], q.TAU.from_a_mu(o["a"], o["mu"])), lambda v: v["a"], ell)
L("period_of_axis", [("tau", Real(5000, 200000)), ("mu", MU)], lambda q, o: q.TAU.from_a_mu(q.A.from_mu_tau(o["mu"], o["tau"]), o["mu"]), lambda v: v["tau"], pos("tau", "mu"))
L("axis_of_mean_motion", AM, lambda q, o: q.A.from_mu_n(o["mu"], q.N.from_a_mu(o["a"], o["mu"])), lambda v: v["a"], ell)
L("mean_motion_of_period", AM, lambda q, o: q.N.from_tau(q.TAU.from_a_mu(o["a"], o["mu"])), lambda v: sqrt(div(v["mu"], v["a"] * v["a"] * v["a"])), ell)
L("parameter_two_ways", AE, lambda q, o: q.P.from_a_b(o["a"], q.B.from_a_e(o["a"], o["e"])), lambda v: v["a"] * (1 - v["e"] * v["e"]), ell)
L("eccentricity_of_parameter", AE, lambda q, o: q.E.from_a_p(o["a"], q.P.from_a_e(o["a"], o["e"])), lambda v: v["e"], ell)
L("eccentricity_of_axes", AE, lambda q, o: q.E.from_a_b(o["a"], q.B.from_a_e(o["a"], o["e"])), lambda v: v["e"], ell)
L("parameter_of_areal_velocity", AE, lambda q, o: q.P.from_mu_h(o["mu"], q.H.from_mu_p(o["mu"], q.P.from_a_e(o["a"], o["e"]))), lambda v: v["a"] * (1 - v["e"] * v["e"]), ell)
AR = [("a", A), ("mu", MU), ("r", A)]
onell = lambda v: ell(v) + [lt(ZERO, v["r"]), le(v["r"], 2 * v["a"])]
L("speed_from_energy", AR, lambda q, o: [q.V.from_mu_r_xi(o["mu"], o["r"], q.XI.from_mu_a(o["mu"], o["a"])), q.V.from_a_mu_r(o["a"], o["mu"], o["r"])],
  lambda v: [sqrt(v["mu"] * (div(lift(2), v["r"]) - div(ONE, v["a"])))] * 2, onell, ListOf(R, R))
L("energy_from_speed", AR, lambda q, o: q.XI.from_mu_r_v(o["mu"], o["r"], q.V.from_a_mu_r(o["a"], o["mu"], o["r"])), lambda v: -div(v["mu"], 2 * v["a"]), onell)
L("axis_from_speed", AR, lambda q, o: q.A.from_mu_r_v(o["mu"], o["r"], q.V.from_a_mu_r(o["a"], o["mu"], o["r"])), lambda v: v["a"], onell)


def vis(q, o):
    p = q.P.from_a_e(o["a"], o["e"])
    r = o["_ns"].get(FN + "Radius").from_p_e_nu(p, o["e"], o["nu"])
    return [q.V.from_mu_r_e_nu(o["mu"], r, o["e"], o["nu"]), q.V.from_a_mu_r(o["a"], o["mu"], r)]


def vis_spec(v):
    c = 1 + v["e"] * cos(v["nu"])
    x = sqrt(div(v["mu"] * (1 + 2 * v["e"] * cos(v["nu"]) + v["e"] * v["e"]), v["a"] * (1 - v["e"] * v["e"])))
    return [x, x]


L("flattening", AE, lambda q, o: q.F.from_a_b(o["a"], q.B.from_a_e(o["a"], o["e"])), lambda v: 1 - sqrt(1 - v["e"] * v["e"]), ell)
L("speed_on_conic", AE + [("nu", ANG)], vis, vis_spec, ell, ListOf(R, R))

# ------------------------------------------------------------------- planning
PL = "openspace.planning.maneuvers:"
MUE = Q("398600.4418")
circ = lambda r: sqrt(div(MUE, r))
Contract("plan.VisViva.circular", PL + "VisViva.circular_velocity", [("r", A)], R, lambda v: circ(v["r"]), requires=pos("r"))
Contract("plan.VisViva.eccentric", PL + "VisViva.eccentric_velocity", [("r", A), ("a", A)], R, lambda v: sqrt(MUE * (div(lift(2), v["r"]) - div(ONE, v["a"]))),
         requires=lambda v: [lt(ZERO, v["r"]), lt(ZERO, v["a"]), le(v["r"], 2 * v["a"])])
HOHMANN = Rec(PL + "Hohmann", {k: R for k in ("initial_velocity", "transfer_velocity_1", "transfer_velocity_2", "final_velocity", "delta_v_1", "delta_v_2")})


def hohmann(v):
    r1, r2 = v["r1"], v["r2"]
    t = lambda r: sqrt(MUE * (div(lift(2), r) - div(lift(2), r1 + r2)))
    return dict(initial_velocity=circ(r1), transfer_velocity_1=t(r1), transfer_velocity_2=t(r2), final_velocity=circ(r2), delta_v_1=t(r1) - circ(r1), delta_v_2=circ(r2) - t(r2))


Contract("plan.Hohmann", PL + "Hohmann", [("r1", A), ("r2", A)], HOHMANN, hohmann, requires=pos("r1", "r2"), stub=False)
