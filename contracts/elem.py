"""Contracts of openspace.coordinates.elements: classical elements and their inertial state."""
import math
import mpmath as mp
from dv import terms as tm
from dv.engine import Contract, REG
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from contracts.timefn import MUE, A, ECC, ANG, atan_wrap, kepler_post
from contracts.state import euler

EL = "openspace.coordinates.elements:"
R = Real()
INC = Real(0.0, math.pi, (0.0, 1.0, math.pi))
FIELDS = {"epoch": EPOCH, "semimajor_axis": A, "eccentricity": ECC, "inclination": INC, "raan": ANG, "argument_of_perigee": ANG, "mean_anomaly": Real(-3.0, 6.28, (0.0, 1e-3, math.pi))}
ELEM = Rec(EL + "ClassicalElements", FIELDS, ctor=["epoch", "semimajor_axis", "eccentricity", "inclination", "raan", "argument_of_perigee", "mean_anomaly"])


def Ec(id, target, params, result, spec, **k):
    return Contract("elem." + id, EL + target if target else None, params, result, spec, **k)


def elements(epoch, a, e, i, raan, aop, ma):
    return dict(zip(FIELDS, (epoch, a, e, i, raan, aop, ma)))


Ec("ClassicalElements", "ClassicalElements", [("epoch", EPOCH), ("a", A), ("e", ECC), ("i", INC), ("raan", ANG), ("arg_per", ANG), ("ma", ANG)], ELEM,
   lambda v: elements(v["epoch"], v["a"], v["e"], v["i"], v["raan"], v["arg_per"], v["ma"]), stub=False)


def axes(el):
    """perifocal axes P (to perigee), Q (90 degrees ahead), W (orbit normal) of an element set"""
    return euler({"Om": el["raan"], "inc": el["inclination"], "u": el["argument_of_perigee"]})


Ec("perigee_vector", "ClassicalElements.perigee_vector", [("self", ELEM)], V3, lambda v: axes(v["self"])[0])
Ec("semilatus_rectum_vector", "ClassicalElements.semilatus_rectum_vector", [("self", ELEM)], V3, lambda v: axes(v["self"])[1])

# the eccentric anomaly as callers see it: some value satisfying Kepler's equation to the solver tolerance
def kepler_num(ma, e):
    m = ma - 2 * mp.pi * mp.floor(ma / (2 * mp.pi))
    x = m + e * mp.sin(m)
    for _ in range(200):
        d = (x - e * mp.sin(x) - m) / (1 - e * mp.cos(x))
        x -= d
        if abs(d) < mp.mpf(10) ** -(mp.mp.dps - 5):
            break
    return x


tm.UF_IMPL["kepler"] = kepler_num


def kepler_opaque(v):
    r = uf("kepler", v["ma"], v["e"])
    return r, [f for _, f in kepler_post(v, r)]


REG["fn.EccentricAnomaly.from_ma_e"].opaque = kepler_opaque

orbital = lambda el: [lt(ZERO, el["semimajor_axis"]), le(ZERO, el["eccentricity"]), lt(el["eccentricity"], 1), lt(-PI, el["mean_anomaly"]), lt(el["mean_anomaly"], 2 * PI)]
anomaly = lambda el: uf("kepler", el["mean_anomaly"], el["eccentricity"])
Ec("eccentric_anomaly", "ClassicalElements.eccentric_anomaly", [("self", ELEM)], R, lambda v: anomaly(v["self"]), requires=lambda v: orbital(v["self"]), mptol=1e-9, stub=False)


def on_ellipse(P, Q_, a, e, E):
    """position and velocity at eccentric anomaly E of the ellipse with perifocal axes P, Q"""
    b = a * sqrt(1 - e * e)
    r = a * (1 - e * cos(E))
    w = div(sqrt(div(MUE, a)), r)
    return add(scale(P, a * (cos(E) - e)), scale(Q_, b * sin(E))), add(scale(P, -a * w * sin(E)), scale(Q_, b * w * cos(E)))


def el_state(el):
    P, Q_, _ = axes(el)
    x, v = on_ellipse(P, Q_, el["semimajor_axis"], el["eccentricity"], anomaly(el))
    return state(el["epoch"], x, v)


def kepler_of(el):
    return kepler_post({"ma": el["mean_anomaly"], "e": el["eccentricity"]}, anomaly(el))


def ijk_post(v, r):
    el = v["self"]
    a, e = el["semimajor_axis"], el["eccentricity"]
    W = axes(el)[2]
    x, u = r["position"], r["velocity"]
    R_ = a * (1 - e * cos(anomaly(el)))
    return kepler_of(el) + [("radius", eq(norm2(x), R_ * R_)),
            ("orbital energy", eq(norm2(u) / 2 - div(MUE, R_), -div(MUE, 2 * a))),
            ("angular momentum and orbit plane", veq(cross(x, u), scale(W, sqrt(MUE * a * (1 - e * e)))))]


Ec("to_ijk", "ClassicalElements.to_ijk", [("self", ELEM)], IJK, lambda v: el_state(v["self"]), requires=lambda v: orbital(v["self"]), post=ijk_post, derived=lambda v, r: [f for _, f in kepler_of(v["self"])], mptol=1e-8, tol=1e-6)

# every bound state with nonzero angular momentum is the point at eccentric anomaly E of an ellipse (a, e) with perifocal
# axes given by node, inclination and argument of perigee; node and inclination vanish from an equatorial orbit
G = [("a", A), ("e", ECC), ("E", Real(0.0, 6.28, (0.0, math.pi))), ("w", ANG)]
GI = G + [("Om", ANG), ("inc", Real(0.01, 3.13, (1.0,)))]


def basis(v, kind):
    if kind == "inclined":
        return euler({"Om": v["Om"], "inc": v["inc"], "u": v["w"]})
    s = 1 if kind == "equatorial" else -1
    return [[cos(v["w"]), s * sin(v["w"]), ZERO], [-sin(v["w"]), s * cos(v["w"]), ZERO], [ZERO, ZERO, lift(s)]]


def tie_el(kind, circular):
    def f(v):
        P, Q_, _ = basis(v, kind)
        v["state"]["position"], v["state"]["velocity"] = on_ellipse(P, Q_, lift(v["a"]), ZERO if circular else lift(v["e"]), lift(v["E"]))

    return f


def el_where(kind, circular):
    def f(v):
        out = [lt(ZERO, v["a"]), le(ZERO, v["E"]), lt(v["E"], 2 * PI)]
        if not circular:
            out += [lt(ZERO, v["e"]), lt(v["e"], 1)]
        if kind == "inclined":
            out += [lt(ZERO, v["inc"]), lt(v["inc"], PI)]
        return out

    return f


def bound(v):
    x, u = v["state"]["position"], v["state"]["velocity"]
    return [nonzero(cross(x, u)), lt(norm2(u) * mag(x), 2 * MUE)]


def from_post(kind, circular):
    def f(v, el):
        x, u = v["state"]["position"], v["state"]["velocity"]
        rng = [("angle ranges", land(le(ZERO, el["raan"]), lt(el["raan"], 2 * PI), le(ZERO, el["argument_of_perigee"]), lt(el["argument_of_perigee"], 2 * PI),
                                     le(ZERO, el["mean_anomaly"]), lt(el["mean_anomaly"], 2 * PI), le(ZERO, el["inclination"]), le(el["inclination"], PI)))]
        if v.get("_concrete"):
            return rng
        B_, C = axes(el), basis(v, kind)
        e, E = (ZERO, v["E"]) if circular else (v["e"], v["E"])
        out = rng + [("axis", eq(el["semimajor_axis"], v["a"])), ("eccentricity", eq(el["eccentricity"], e)), ("orbit plane", veq(B_[2], C[2]))]
        if circular:
            # the perigee of a circular orbit is taken at the object
            out += [("mean anomaly", eq(el["mean_anomaly"], ZERO)), ("perigee at the object", veq(scale(B_[0], v["a"]), x))]
        else:
            out += [("perigee direction", veq(B_[0], C[0])), ("direction of motion at perigee", veq(B_[1], C[1])), ("mean anomaly", eq(el["mean_anomaly"], E - e * sin(E)))]
        return out

    return f


def known(kind, circular):
    """inside these proofs the intermediate quantities are named by the ghosts (obligation: equal to the callee's contract)"""

    def same(x, y):
        return all(lift(p).id == lift(q).id for p, q in zip(x, y))

    def g(caller):
        a, e, E = caller["a"], (ZERO if circular else caller["e"]), caller["E"]
        return a, e, E, sqrt(1 - e * e), sqrt(MUE * a), basis(caller, kind)

    def agree(p, label, x, y):
        for k, (m, n) in enumerate(zip(x if isinstance(x, list) else [x], y if isinstance(y, list) else [y])):
            p.oblige("pre", f"{label}{k if isinstance(x, list) else ''}", eq(m, n))
        return y

    def via(id, f):
        def h(view, caller, p):
            spec = REG[id].spec
            y = f(view, caller, p)
            if y is None:
                return spec(view)
            return agree(p, id, spec(view), y)

        return h

    def magnitude(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        if same(view["self"], caller["state"]["position"]):
            return a * (1 - e * cos(E))
        if same(view["self"], scale(B_[2], s * q)):
            return s * q

    def rdv(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        st = caller["state"]
        if (same(view["self"], st["position"]) and same(view["b"], st["velocity"])) or (same(view["b"], st["position"]) and same(view["self"], st["velocity"])):
            return s * e * sin(E)

    def momentum(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        if same(view["r"], caller["state"]["position"]) and same(view["v"], caller["state"]["velocity"]):
            return scale(B_[2], s * q)

    def normal(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        if same(view["self"], scale(B_[2], s * q)):
            return B_[2]

    def axis(view, caller, p):
        return caller["a"] if same([view["r"]], [magnitude({"self": caller["state"]["position"]}, caller, p)]) else None

    def param(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        return a * (1 - e * e) if same([view["h"]], [s * q]) else None

    def ecc(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        return e if same([view["p"]], [a * (1 - e * e)]) else None

    def anom(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        if circular:
            p.oblige("pre", "circular: no radial speed", eq(view["rdv"], 0))
            p.oblige("pre", "circular: radius is the axis", eq(view["r"], view["a"]))
            return ZERO
        return agree(p, "anomaly", atan_wrap(div(view["rdv"], view["a"] * view["a"] * view["n"]), 1 - div(view["r"], view["a"])), E)

    def incl(view, caller, p):
        return caller["inc"] if kind == "inclined" else ZERO if kind == "equatorial" else PI

    def node(view, caller, p):
        w = view["w"]
        if kind != "inclined":
            p.oblige("pre", "equatorial", land(eq(w[0], 0), eq(w[1], 0)))
            return ZERO
        p.oblige("pre", "inclined", lt(ZERO, w[0] * w[0] + w[1] * w[1]))
        return agree(p, "node", atan_wrap(w[0], -w[1]), wrap(caller["Om"]))

    def lat(view, caller, p):
        a, e, E, q, s, B_ = g(caller)
        r, w = view["r"], view["w"]
        nu = E if circular else atan_wrap(q * sin(E), cos(E) - e)
        u = wrap(caller["w"] + nu)
        if kind == "inclined":
            p.oblige("pre", "inclined", lt(ZERO, w[0] * w[0] + w[1] * w[1]))
            # atan2(k sin u, k cos u) is u modulo a full turn for k > 0
            k = a * (1 - e * cos(E)) * sin(caller["inc"])
            p.oblige("pre", "latitude scale", lt(ZERO, k))
            p.oblige("pre", "latitude sine", eq(r[2], k * sin(caller["w"] + nu)))
            p.oblige("pre", "latitude cosine", eq(r[1] * w[0] - r[0] * w[1], k * cos(caller["w"] + nu)))
            return u
        s_ = 1 if kind == "equatorial" else -1
        p.oblige("pre", "equatorial", land(eq(w[0], 0), eq(w[1], 0), eq(w[2], s_)))
        return agree(p, "latitude", atan_wrap(r[1] * s_, r[0]), u)

    out = {k: via(k, f) for k, f in (("linalg.Vector3D.magnitude", magnitude), ("linalg.Vector3D.dot", rdv), ("fn.ArealVelocity.from_r_v", momentum), ("linalg.Vector3D.normalized", normal),
                                     ("fn.SemiMajorAxis.from_mu_r_v", axis), ("fn.SemiParameter.from_mu_h", param), ("fn.Eccentricity.from_a_p", ecc), ("fn.Inclination.from_w", incl))}
    out.update({"fn.EccentricAnomaly.from_rdv_r_a_n": anom, "fn.RightAscensionNode.from_w": node, "fn.ArgumentOfLatitude.from_r_w": lat})
    return out


ELSTATE = StateTy("IJK")
for kind_ in ("inclined", "equatorial", "retrograde"):
    for circ_ in (False, True):
        Ec(f"from_ijk.{kind_}.{'circular' if circ_ else 'elliptic'}", "ClassicalElements.from_ijk", [("state", ELSTATE)], ELEM, None, override=known(kind_, circ_),
           ghosts=(GI if kind_ == "inclined" else G), tie=tie_el(kind_, circ_), where=el_where(kind_, circ_), requires=bound, post=from_post(kind_, circ_), stub=False, timeout=60, tol=1e-6)


# ------------------------------------------------- there and back
def near(x, t="1e-11"):
    """zero modulo a full turn, to the Kepler solver's tolerance"""
    t = Q(t)
    return lor(land(le(-t, x), le(x, t)), land(le(-t, x - 2 * PI), le(x - 2 * PI, t)))


def round_spec(v):
    s = v["state"]
    return [ANY, s if v.get("_concrete") else {"epoch": s["epoch"], "position": ANY, "velocity": ANY, "vector": ANY}]


def round_post(kind, circular):
    def f(v, r):
        if v.get("_concrete"):
            return []
        el, s = r
        E1 = uf("kepler", el["mean_anomaly"], el["eccentricity"])
        a, e, E = v["a"], (ZERO if circular else v["e"]), (ZERO if circular else v["E"])
        P, Q_, _ = basis(v, kind)
        if circular:
            P, Q_ = add(scale(P, cos(v["E"])), scale(Q_, sin(v["E"]))), sub(scale(Q_, cos(v["E"])), scale(P, sin(v["E"])))
        x, u = on_ellipse(P, Q_, a, e, E1)
        return [("on the same ellipse", land(veq(s["position"], x), veq(s["velocity"], u))), ("at the same mean anomaly", near(E1 - e * sin(E1) - (E - e * sin(E))))]

    return f


for kind_ in ("inclined", "equatorial", "retrograde"):
    for circ_ in (False, True):
        Ec(f"lemma.roundtrip.{kind_}.{'circular' if circ_ else 'elliptic'}", None, [("state", ELSTATE)], ListOf(ELEM, IJK), round_spec, override=known(kind_, circ_),
           ghosts=(GI if kind_ == "inclined" else G), tie=tie_el(kind_, circ_), where=el_where(kind_, circ_), requires=bound, post=round_post(kind_, circ_), stub=False, timeout=60, tol=1e-6, mptol=1e-9,
           call=lambda ns, o: (lambda el: [el, el.to_ijk()])(ns.get(EL + "ClassicalElements").from_ijk(o["state"])))
