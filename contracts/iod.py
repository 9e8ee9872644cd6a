"""Contracts of openspace.estimation.iod: Gauss' method from two positions."""
import math
import random
import mpmath as mp
from dv import terms as tm
from dv.engine import Contract, REG, Ty
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from dv.prove import truth
from contracts.timefn import MUE, A, ECC, ANG
from contracts.state import euler
from contracts.elem import ELEM, axes, on_ellipse, elements, el_state

IO = "openspace.estimation.iod:"
R = Real()
DAY = 86400


def Ic(id, target, params, result, spec, **k):
    return Contract("iod." + id, IO + target if target else None, params, result, spec, **k)


# ---------------------------------------------------- sector-to-triangle equation
def W_of(w):
    g = 2 * asin(sqrt(w))
    s = sin(g)
    return div(2 * g - sin(2 * g), s * s * s)


def f_of(n, m, l):
    k = div(m, n * n)
    return 1 - n + k * W_of(k - l)


inside = lambda w: [lt(ZERO, w), lt(w, 1)]
Ic("w_of_omega", "Gauss.w_of_omega", [("w", Real(0.001, 0.9, (0.5,)))], R, lambda v: W_of(v["w"]), requires=lambda v: inside(v["w"]), tol=1e-5)


def f_gen(r, v):
    v["m"] = v["n"] * v["n"] * (v["l"] + r.uniform(0.001, 0.9))


Ic("f_of_nu", "Gauss.f_of_nu", [("n", Real(0.9, 2.0)), ("m", Real(0.0, 2.0)), ("l", Real(0.0, 0.5))], R, lambda v: f_of(v["n"], v["m"], v["l"]),
   requires=lambda v: [ne(v["n"], 0)] + inside(div(v["m"], v["n"] * v["n"]) - v["l"]), gen=f_gen, tol=1e-4)


def sector_num(m, l, n0, n1):
    """the ratio by the secant iteration, in the working precision"""

    def f(n):
        k = m / (n * n)
        w = k - l
        if not 0 < w < 1:
            raise ValueError
        g = 2 * mp.asin(mp.sqrt(w))
        return 1 - n + k * (2 * g - mp.sin(2 * g)) / mp.sin(g) ** 3

    try:
        for _ in range(100):
            f1 = f(n1)
            n2 = n1 - f1 * (n1 - n0) / (f1 - f(n0))
            if abs(n2 - n1) < mp.mpf(10) ** -12:
                return n2
            n0, n1 = n1, n2
    except (ValueError, ZeroDivisionError):
        pass
    return tm.NAN


tm.UF_IMPL["sector"] = sector_num
sector = lambda v: uf("sector", v["m"], v["l"], v["n0"], v["n1"])


def solve_watch(v, p):
    p.fcalls = []

    def hook(c, view, objs):
        if c.id == "iod.f_of_nu":
            p.fcalls.append(view["n"])

    return hook


def solve_post(v, r):
    m, l = v["m"], v["l"]
    res = f_of(r, m, l)
    flat = [("sector-triangle equation", land(le(-Q("1e-9"), res), le(res, Q("1e-9"))))]
    if v.get("_concrete"):
        return flat
    # the result is the secant step through two of the points the loop holds, and within the tolerance of the later one
    pts = []
    for x in (getattr(v["_path"], "fcalls", None) or []) + sorted(tm.variables([r]), key=lambda x: x.args[0]):
        if x.id not in (y.id for y in pts) and x.id not in (m.id, l.id):
            pts.append(x)
    rng = random.Random(7)
    env = {x.args[0]: mp.mpf(rng.uniform(0.9, 1.1)) for x in tm.variables([r] + pts)}
    env.update({m.args[0]: mp.mpf("0.6"), l.args[0]: mp.mpf("0.1")})
    t = Q("1e-12")
    step = lambda n1, n0: (lambda f1, f0: eq((n1 - r) * (f1 - f0), f1 * (n1 - n0)))(f_of(n1, m, l), f_of(n0, m, l))
    for n1 in pts:
        for n0 in pts:
            if n1 is not n0:
                g = step(n1, n0)
                if truth(g, env) is True and truth(eq(r, n1), env) is False:
                    return [("successive values agree", land(le(-t, r - n1), le(r - n1, t))), ("secant step", g)]
    return flat


def sector_gen(r, v):
    """a real orbit arc: ratio and auxiliaries from an ellipse"""
    e, a, E1, dE = r.uniform(0, 0.7), r.uniform(8000, 40000), r.uniform(0, 6.28), r.uniform(0.05, 1.2)
    v["m"], v["l"], n = arc(e, a, E1, dE)
    v["n1"] = 12 / 22 + 10 / 22 * math.sqrt(1 + 44 / 9 * v["m"] / (v["l"] + 5 / 6))
    v["n0"] = v["n1"] + 0.1


def arc(e, a, E1, dE):
    E2 = E1 + dE
    mu = 398600.4418
    pt = lambda E: (a * (math.cos(E) - e), a * math.sqrt(1 - e * e) * math.sin(E))
    (x1, y1), (x2, y2) = pt(E1), pt(E2)
    ra, rb = math.hypot(x1, y1), math.hypot(x2, y2)
    tau = math.sqrt(a ** 3) * (dE - e * (math.sin(E2) - math.sin(E1)))
    base = 2 * (ra * rb + x1 * x2 + y1 * y2)
    tri = x1 * y2 - x2 * y1
    p = a * (1 - e * e)
    return tau * tau * base ** -1.5, (ra + rb) / (2 * math.sqrt(base)) - 0.5, tau * math.sqrt(p) / tri


Ic("solve_nu", "Gauss.solve_nu", [("m", Real(0.01, 2.0)), ("l", Real(0.0, 0.5)), ("n0", Real(0.9, 2.0)), ("n1", Real(0.9, 2.0))], R, None, requires=lambda v: [lt(ZERO, sector(v))], post=solve_post, on_call=solve_watch, gen=sector_gen,
   opaque=lambda v: (sector(v), []), assume_pre=["iod.f_of_nu", "div"], mptol=1e-9, tol=1e-5,
   note="the secant iterates are assumed to stay where the sector-triangle function is defined and to have distinct function values; termination is not proved (partial correctness)")


# ------------------------------------------------------------ orbit from two positions
class SeenTy(Ty):
    """any observation: something with an inertial position and an epoch"""

    fields = {"position": POS, "epoch": EPOCH}

    def __init__(s):
        s.cls = {}

    def fresh(s, p):
        return {k: t.fresh(f"{p}.{k}") for k, t in s.fields.items()}

    def build(s, ns, v):
        if id(ns) not in s.cls:
            base = ns.get("openspace.estimation.obs:Observation")

            class Seen(base):
                def __init__(self, r, t):
                    self.position, self.at = r, t

                def ijk_position(self):
                    return self.position

                def epoch(self):
                    return self.at

            s.cls[id(ns)] = Seen
        return s.cls[id(ns)](POS.build(ns, v["position"]), EPOCH.build(ns, v["epoch"]))

    def view(s, o):
        return {"position": POS.view(o.position), "epoch": EPOCH.view(o.at)}

    def sample(s, r):
        return {k: t.sample(r) for k, t in s.fields.items()}


SEEN = SeenTy()
# two non-collinear positions: radius Ra along e_r, radius Rb at angle D ahead of it; the ratio is named by the true anomaly t
# and eccentricity e it implies (p = Ra (1 + e cos t), Rb (1 + e cos(t + D)) = p)
GP = [("Ra", A), ("D", Real(0.1, 2.2, ())), ("e", Real(0.02, 0.7, ())), ("t", Real(0.05, 6.2, ())), ("dt", Real(100.0, 20000.0, ())), ("u", ANG)]
GPI = GP + [("Om", ANG), ("inc", Real(0.01, 3.13, (1.0,)))]


def frame_of(v, kind):
    if kind == "inclined":
        return euler(v)
    s = 1 if kind == "equatorial" else -1
    return [[cos(v["u"]), s * sin(v["u"]), ZERO], [-sin(v["u"]), s * cos(v["u"]), ZERO], [ZERO, ZERO, lift(s)]]


def ec(v, circular):
    return ZERO if circular else lift(v["e"])


def param(v, circular):
    return lift(v["Ra"]) * (1 + ec(v, circular) * cos(v["t"]))


def radius_b(v, circular):
    return div(param(v, circular), 1 + ec(v, circular) * cos(lift(v["t"]) + v["D"]))


def tie_seen(kind, circular):
    def f(v):
        F = frame_of(v, kind)
        v["ob1"]["position"] = scale(F[0], lift(v["Ra"]))
        Rb = radius_b(v, circular)
        v["ob2"]["position"] = add(scale(F[0], Rb * cos(v["D"])), scale(F[1], Rb * sin(v["D"])))
        v["ob2"]["epoch"] = v["ob1"]["epoch"] + lift(v["dt"]) / DAY

    return f


def seen_where(kind, circular):
    def f(v):
        out = [lt(ZERO, v["Ra"]), lt(ZERO, v["D"]), lt(v["D"], PI), lt(ZERO, v["dt"])]
        if not circular:
            out += [lt(ZERO, v["e"]), lt(v["e"], 1), le(ZERO, v["t"]), lt(v["t"], 2 * PI)]
        if kind == "inclined":
            out += [lt(ZERO, v["inc"]), lt(v["inc"], PI)]
        return out

    return f


def seen_gen(circular):
    def f(r, v):
        """the flight time of the ellipse itself, so that the ratio is the one named"""
        if r.random() < 0.2:
            v["t"] = r.choice((1, 3)) * math.pi / 2
        e, t, D = (0.0 if circular else v["e"]), v["t"], v["D"]
        a = v["Ra"] * (1 + e * math.cos(t)) / (1 - e * e)
        E = [2 * math.atan2(math.sqrt(1 - e) * math.sin(x / 2), math.sqrt(1 + e) * math.cos(x / 2)) for x in (t, t + D)]
        dE = (E[1] - E[0]) % (2 * math.pi)
        v["dt"] = math.sqrt(a ** 3 / 398600.4418) * (dE - e * (math.sin(E[0] + dE) - math.sin(E[0])))

    return f


def known(kind, circular):
    """intermediate quantities named by the ghosts (obligation: equal to the callee's contract)"""

    def same(x, y):
        return all(lift(p).id == lift(q).id for p, q in zip(x, y))

    def via(id, f):
        def h(view, caller, p):
            x, y = REG[id].spec(view), f(view, caller)
            if y is None:
                return x
            for k, (m, n) in enumerate(zip(x if isinstance(x, list) else [x], y if isinstance(y, list) else [y])):
                p.oblige("pre", f"{id}{k}", eq(m, n))
            return y

        return h

    def parts(c):
        F = frame_of(c, kind)
        Rb = radius_b(c, circular)
        return F, Rb, scale(F[1], Rb * sin(c["D"]))

    def magnitude(view, c):
        F, Rb, r0 = parts(c)
        x = view["self"]
        return c["Ra"] if same(x, c["ob1"]["position"]) else Rb if same(x, c["ob2"]["position"]) else Rb * sin(c["D"]) if same(x, r0) else None

    def minus(view, c):
        F, Rb, r0 = parts(c)
        return r0 if same(view["self"], c["ob2"]["position"]) else None

    def normalized(view, c):
        F, Rb, r0 = parts(c)
        return F[0] if same(view["self"], c["ob1"]["position"]) else F[1] if same(view["self"], r0) else None

    def crossed(view, c):
        F, Rb, r0 = parts(c)
        return F[2] if same(view["self"], F[0]) and same(view["b"], F[1]) else None

    def dotted(view, c):
        F, Rb, r0 = parts(c)
        k = {tuple(lift(t).id for t in x): i for i, x in enumerate((F[0], c["ob1"]["position"], c["ob2"]["position"]))}
        i, j = k.get(tuple(lift(t).id for t in view["self"])), k.get(tuple(lift(t).id for t in view["b"]))
        if i is None or j is None or (i != 2 and j != 2) or i == j:
            return None
        return Rb * cos(c["D"]) * (c["Ra"] if 1 in (i, j) else 1)

    def ratio(view, c, p):
        F, Rb, r0 = parts(c)
        base = 2 * (c["Ra"] * Rb + c["Ra"] * Rb * cos(c["D"]))
        tau2 = MUE * c["dt"] * c["dt"]
        b = sqrt(base)
        p.oblige("pre", "sector-triangle m", eq(view["m"] * (base * b), tau2))
        p.oblige("pre", "sector-triangle l", eq(view["l"], div(c["Ra"] + Rb, 2 * b) - Q("0.5")))
        return div(sqrt(MUE) * c["dt"] * sqrt(param(c, circular)), c["Ra"] * Rb * sin(c["D"]))

    out = {k: via(k, f) for k, f in (("linalg.Vector3D.magnitude", magnitude), ("linalg.Vector3D.minus", minus), ("linalg.Vector3D.normalized", normalized),
                                     ("linalg.Vector3D.cross", crossed), ("linalg.Vector3D.dot", dotted))}
    out["iod.solve_nu"] = ratio
    return out


def coes_post(kind, circular):
    def f(v, el):
        x, y = v["ob1"]["position"], v["ob2"]["position"]
        P, Q_, W = axes(el)
        a, e = el["semimajor_axis"], el["eccentricity"]
        p = a * (1 - e * e)
        out = []
        if v.get("_concrete"):
            h = cross(x, y)
            out += [("orbit plane", veq(W, unit(h))), ("first radius", eq(mag(x) + e * dot(P, x), p)), ("second radius", eq(mag(y) + e * dot(P, y), p)),
                    ("first position at the first epoch", veq(el_state(el)["position"], x))]
            dt = (v["ob2"]["epoch"] - v["ob1"]["epoch"]) * DAY
            base = 2 * (mag(x) * mag(y) + dot(x, y))
            m, l = div(MUE * dt * dt, base * sqrt(base)), div(mag(x) + mag(y), 2 * sqrt(base)) - Q("0.5")
            res = f_of(div(sqrt(MUE * p) * dt, mag(h)), m, l)
            return out + [("sector-triangle equation", land(le(-Q("1e-8"), res), le(res, Q("1e-8"))))]
        g, t = ec(v, circular), lift(v["t"])
        F = frame_of(v, kind)
        out += [("epoch", eq(el["epoch"], v["ob1"]["epoch"])), ("eccentricity", eq(e, g)), ("semi-parameter of the converged ratio", eq(p, param(v, circular))), ("orbit plane", veq(W, F[2]))]
        if circular:
            return out + [("first position at the first epoch", veq(scale(P, v["Ra"]), x)), ("ahead of it", veq(Q_, F[1])), ("mean anomaly", eq(el["mean_anomaly"], 0))]
        q = sqrt(1 - g * g)
        E = atan2(q * sin(t), cos(t) + g)
        return out + [("perigee direction", veq(P, sub(scale(F[0], cos(t)), scale(F[1], sin(t))))), ("direction of motion", veq(Q_, add(scale(F[0], sin(t)), scale(F[1], cos(t))))),
                      ("mean anomaly", eq(el["mean_anomaly"], E - g * sin(E))),
                      ("first position at the first epoch", veq(on_ellipse(P, Q_, a, e, E)[0], x))]

    return f


def seen_names(circular):
    def f(v):
        e, t = ec(v, circular), lift(v["t"])
        return [ZERO] * circular + [sqrt(MUE) * v["dt"], param(v, circular)] + ([] if circular else [e * cos(t), e * sin(t), e])

    return f


def converges(v):
    """the secant iteration from the starting values of the code converges"""
    x, y = v["ob1"]["position"], v["ob2"]["position"]
    dt = (v["ob2"]["epoch"] - v["ob1"]["epoch"]) * DAY
    base = 2 * (mag(x) * mag(y) + dot(x, y))
    m, l = div(MUE * dt * dt, base * sqrt(base)), div(mag(x) + mag(y), 2 * sqrt(base)) - Q("0.5")
    n0 = Q("12/22") + Q("10/22") * sqrt(1 + Q("44/9") * div(m, l + Q("5/6")))
    return [nonzero(cross(x, y)), lt(v["ob1"]["epoch"], v["ob2"]["epoch"]), lt(ZERO, uf("sector", m, l, n0 + Q("0.1"), n0))]


for kind_ in ("inclined", "equatorial", "retrograde"):
    for circ_ in (False, True):
        Ic(f"coes_from_positions.{kind_}.{'circular' if circ_ else 'elliptic'}", "Gauss.coes_from_positions", [("ob1", SEEN), ("ob2", SEEN)], ELEM, None, override=known(kind_, circ_),
           ghosts=(GPI if kind_ == "inclined" else GP), tie=tie_seen(kind_, circ_), where=seen_where(kind_, circ_), gen=seen_gen(circ_), post=coes_post(kind_, circ_), assume_pre=["iod.solve_nu"], stub=False,
           requires=converges, names=seen_names(circ_), timeout=60, tol=1e-5, mptol=1e-8, note="the conic through both positions with the semi-parameter of the converged ratio is an ellipse")
