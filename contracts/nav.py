"""Contracts of the relative navigation filter."""
import math
from dv.engine import Contract, REG, vleaves
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from contracts.state import HILL, cw, to_hcw, off_axis, frame
from contracts.ground import SPACE, from_sph, sph_of
from contracts import sat

FI = "openspace.estimation.filtering:"
R = Real()
DAY = 86400


class SymTy(Mat):
    """6x6 sample matrices that are symmetric positive definite (symbolically: any matrix)"""

    def __init__(s, hi=1.0):
        super().__init__(6, 6)
        s.hi = hi

    def sample(s, r):
        L = [[r.gauss(0, 1) if j <= i else 0.0 for j in range(6)] for i in range(6)]
        m = [[sum(L[i][k] * L[j][k] for k in range(6)) * s.hi for j in range(6)] for i in range(6)]
        return [[(m[i][j] + m[j][i]) / 2 + (s.hi * 0.1 if i == j else 0) for j in range(6)] for i in range(6)]


class DiagTy(Mat):
    def __init__(s):
        super().__init__(3, 3)

    def sample(s, r):
        return [[r.uniform(0.01, 2) if i == j else 0.0 for j in range(3)] for i in range(3)]


COV = SymTy()
ALL = {"epoch": EPOCH, "propagator": HILL, "x00": V6, "x10": V6, "p00": COV, "p10": COV, "q": SymTy(0.01), "f": M66, "k": M63, "z": V3, "r": DiagTy(), "range_error": R, "angular_error": R}


class KF(Rec):
    """a filter in any condition: created by the real constructor, then its attributes are set.
    attributes an operation writes without reading hold whatever the previous observation left in them
    (`outs`, which a fresh filter lacks, are those whose earlier value is not part of the pre-state)"""

    def __init__(s, names, outs=()):
        super().__init__(FI + "RelativeKalman", {n: ALL[n] for n in names}, ctor=[])
        s.outs = {n: ALL[n] for n in outs}

    def build(s, ns, v):
        if "propagator" in s.fields:
            h = HILL.build(ns, v["propagator"])
        else:
            h = ns.get(HILL.cls)(HCW.build(ns, {"epoch": 0, "position": [0, 0, 0], "velocity": [0, 0, 0]}), 42164)
        o = ns.get(s.cls)(EPOCH.build(ns, v.get("epoch", 51544)), h)
        for k, t in s.fields.items():
            if k not in ("propagator", "epoch"):
                setattr(o, k, t.build(ns, v[k]))
        return o

    def view(s, o):
        v = super().view(o)
        for k, t in s.outs.items():
            if hasattr(o, k):
                v[k] = t.view(getattr(o, k))
        return v

    def put(s, ns, o, v):
        for k, t in (s.fields | s.outs).items():
            if k == "propagator" and v[k]["state"]["epoch"] is not ANY:
                continue  # untouched
            if k == "propagator":
                o.propagator.state = HCW.build(ns, {**v[k]["state"], "epoch": 0})
            else:
                setattr(o, k, t.build(ns, v[k]))


def Nc(id, target, fields, outs, upd, params=(), used=True, **k):
    return Contract("nav." + id, FI + "RelativeKalman." + target, [("self", KF(fields + outs if used else fields, () if used else outs))] + list(params), None, None, modifies={"self": lambda v: {**v["self"], **upd(v["self"], v)}}, **k)


H = [[ONE if i == j else ZERO for j in range(6)] for i in range(3)]
quad = lambda m, x: dot(x, mv(m, x))
sym = lambda m: land([eq(m[i][j], m[j][i]) for i in range(6) for j in range(i)])
predicted_cov = lambda f, p, q: madd(mm(f, mm(p, tr(f))), q)


def gain(s):
    ph = [r[:3] for r in s["p10"]]
    return mm(ph, inv3(innovation(s)))


def innovation(s):
    return madd([r[:3] for r in s["p10"][:3]], s["r"])


def joseph(s, k=None):
    k = s["k"] if k is None else k
    m = msub(ident(6), mm(k, H))
    return madd(mm(m, mm(s["p10"], tr(m))), mm(k, mm(s["r"], tr(k))))


def est(s, k=None):
    k = s["k"] if k is None else k
    return add(s["x10"], mv(k, sub(s["z"], s["x10"][:3])))


rel = lambda x: {**state(ZERO, x[:3], x[3:]), "epoch": ANY}


def moved_to(h, x):
    return {**h, "state": rel(x)}


# ----------------------------------------------------------------- prediction
Nc("predict_covariance", "predict_covariance", ["f", "p00", "q"], ["p10"], lambda s, v: {"p10": predicted_cov(s["f"], s["p00"], s["q"])})
Nc("predict_state", "predict_state", ["propagator", "x00"], ["f", "x10"], lambda s, v: (lambda f: {"f": f, "x10": mv(f, s["x00"])})(cw(s["propagator"]["n"], v["dt"])), [("dt", Real(-9000, 9000))],
   requires=lambda v: [lt(ZERO, v["self"]["propagator"]["n"])], tol=1e-6)


def ahead(s, dt):
    f = cw(s["propagator"]["n"], dt)
    return {"f": f, "x10": mv(f, s["x00"]), "p10": predicted_cov(f, s["p00"], s["q"])}


Nc("predict", "predict", ["propagator", "x00", "p00", "q"], ["f", "x10", "p10"], lambda s, v: ahead(s, v["dt"]), [("dt", Real(-9000, 9000))], requires=lambda v: [lt(ZERO, v["self"]["propagator"]["n"])], tol=1e-6)

# ----------------------------------------------------------------- correction
OKGAIN = lambda v: [ne(det3(innovation(v["self"])), 0)]


def optimal(v, r):
    s, new = v["self"], v["_new"]["self"]
    return [("gain times innovation covariance is the predicted cross-covariance", land([veq(a, b[:3]) for a, b in zip(mm(new["k"], innovation(s)), s["p10"])]))]


Nc("gain", "gain", ["p10", "r"], ["k"], lambda s, v: {"k": gain(s)}, requires=OKGAIN, post=optimal, timeout=60)
Nc("update_state", "update_state", ["x10", "k", "z", "propagator"], ["x00"], lambda s, v: {"x00": est(s), "propagator": moved_to(s["propagator"], est(s))})
Nc("update_covariance", "update_covariance", ["p10", "k", "r"], ["p00"], lambda s, v: {"p00": joseph(s)})


def corrected(s):
    k = gain(s)
    x = est(s, k)
    return {"k": k, "x00": x, "p00": joseph(s, k), "propagator": moved_to(s["propagator"], x)}


Nc("update", "update", ["p10", "r", "x10", "z", "propagator"], ["k", "x00", "p00"], lambda s, v: corrected(s), requires=OKGAIN, tol=1e-6)

# ------------------------------------------------- symmetric and positive semidefinite, always
X = [("x", V6)]


def semidefinite(name, ghost_pre, get):
    def f(v, r):
        return [("symmetric", sym(get(v))), ("x'Px >= 0 for every x", le(ZERO, quad(get(v), v["x"])))]

    def facts(v, r):
        a = quad(get(v), v["x"])
        h = ghost_pre(v)
        e = eq(a, h[0].b + h[1].b)
        return [e, ("gen", le(ZERO, a), [e] + h, [a, h[0].b, h[1].b])]

    return dict(ghosts=X, where=ghost_pre, post=f, stub=False, facts=facts)


newp = lambda n: (lambda v: v["_new"]["self"][n])
tied = lambda *names: (lambda v: [v["self"].__setitem__(n, [[v["self"][n][min(i, j)][max(i, j)] for j in range(len(v["self"][n]))] for i in range(len(v["self"][n]))]) for n in names])


def pre_predict(v):
    s, x = v["self"], v["x"]
    return [le(ZERO, quad(s["p00"], mv(tr(s["f"]), x))), le(ZERO, quad(s["q"], x))]


def pre_update(v):
    s, x = v["self"], v["x"]
    m = msub(ident(6), mm(s["k"], H))
    return [le(ZERO, quad(s["p10"], mv(tr(m), x))), le(ZERO, quad(s["r"], mv(tr(s["k"]), x)))]


NOTE = "positive semidefiniteness of the inputs is used at one vector, for an arbitrary output vector x; symmetric inputs are written with one variable per pair of entries"
Nc("lemma.predicted_semidefinite", "predict_covariance", ["f", "p00", "q"], ["p10"], lambda s, v: {}, used=False, tie=tied("p00", "q"), note=NOTE, timeout=60, **semidefinite("p", pre_predict, newp("p10")))
Nc("lemma.corrected_semidefinite", "update_covariance", ["p10", "k", "r"], ["p00"], lambda s, v: {}, used=False, tie=tied("p10", "r"), note=NOTE, timeout=60, **semidefinite("p", pre_update, newp("p00")))


# ----------------------------------------------------------------- one observation
def measure(ob, d):
    o = ob["observer_state"]
    return to_hcw(o, {**o, "position": add(o["position"], d)})["position"]


def error_of(ob):
    q = sph_of(ob["observed_direction"])
    ob = {**ob, "range": q["radius"], "right_ascension": q["right_ascension"], "declination": q["declination"]}
    return sub(from_sph({"radius": ob["range"] + ob["range_error"], "right_ascension": ob["right_ascension"] + ob["angular_error"], "declination": ob["declination"] + ob["angular_error"]}), ob["observed_direction"])


def diag(x):
    return [[x[i] * x[i] if i == j else ZERO for j in range(3)] for i in range(3)]


def watch(view, p):
    """records what the prediction and the correction are given"""
    cap = view["_cap"] = {}

    def hook(c, vw, objs):
        if c.id in ("nav.predict", "nav.update"):
            cap.setdefault(c.id, []).append(vw)

    return hook


def split(v):
    cap = v.get("_cap") or {}
    a, b = cap.get("nav.predict", []), cap.get("nav.update", [])
    return (a[0], b[0]) if len(a) == len(b) == 1 and v.get("_check") else (None, None)


def processed(s, v):
    ob = v["ob"]
    e = ob["observer_state"]["epoch"]
    dt = (e - s["epoch"]) * DAY
    out = {"epoch": e, "range_error": ob["range_error"], "angular_error": ob["angular_error"]}
    a, b = split(v)
    if a is not None:  # callees against their contracts: compare what they were given (process_post)
        return {**out, **ahead(a["self"], a["dt"]), **{k: b["self"][k] for k in ("z", "r")}, **corrected(b["self"])}
    n = {**s, **ahead(s, dt), "z": measure(ob, ob["observed_direction"]), "r": diag(measure(ob, error_of(ob)))}
    return {**{k: n[k] for k in ("f", "x10", "p10", "z", "r")}, **corrected(n), **out}


def process_post(v, r):
    a, b = split(v)
    if a is None:
        return []
    s, ob = v["self"], v["ob"]
    n = ahead(a["self"], a["dt"])
    same = lambda x, y: land([eq(lift(p), lift(q)) for (_, p), (_, q) in zip(vleaves(x), vleaves(y))])
    return [("prediction over the elapsed time", eq(a["dt"], (ob["observer_state"]["epoch"] - s["epoch"]) * DAY)),
            ("prediction from the current estimate", same([a["self"][k] for k in ("x00", "p00", "q")] + [a["self"]["propagator"]["n"]], [s[k] for k in ("x00", "p00", "q")] + [s["propagator"]["n"]])),
            ("correction of the prediction", same([b["self"][k] for k in ("x10", "p10")], [n[k] for k in ("x10", "p10")])),
            ("measurement is the relative position", same(b["self"]["z"], measure(ob, ob["observed_direction"]))),
            ("measurement noise is diagonal with the squared relative errors", same(b["self"]["r"], diag(measure(ob, error_of(ob)))))]


def seen_ok(v):
    ob = v["ob"]
    o = ob["observer_state"]
    return [lt(ZERO, v["self"]["propagator"]["n"])] + [c for d in (ob["observed_direction"], error_of(ob)) for c in off_axis(o, {**o, "position": add(o["position"], d)})]


def ob_gen(r, v):
    v["ob"]["observer_state"]["epoch"] = v["self"]["epoch"] + r.choice([0.0, r.uniform(0, 0.05), r.uniform(-0.02, 0)])
    k = 10 ** r.uniform(0, 2)
    v["ob"]["observed_direction"] = [r.gauss(0, k) for _ in range(3)]
    v["ob"]["range_error"] = r.uniform(0.01, 0.5)
    v["ob"]["angular_error"] = r.uniform(1e-5, 1e-2)


Nc("process", "process", ["epoch", "propagator", "x00", "p00", "q"], ["f", "x10", "p10", "z", "r", "k", "range_error", "angular_error"], processed, [("ob", SPACE)], requires=seen_ok, gen=ob_gen, on_call=watch, post=process_post, assume_pre=["nav.update", "nav.gain"],
   tol=1e-5, mptol=1e-12, note="the innovation covariance is assumed nonsingular (it is the sum of a positive definite and a positive semidefinite matrix)")

# ----------------------------------------------------------------- construction and use by a spacecraft
D6 = lambda a, b: [[(a if i < 3 else b) if i == j else ZERO for j in range(6)] for i in range(6)]
NEWF = KF(["epoch", "propagator", "x00", "p00", "q", "f"])


def started(e, h):
    return {"epoch": e, "propagator": h, "x00": h["state"]["vector"], "p00": D6(Q("0.5"), Q("0.00005")), "q": D6(Q("1e-16"), Q("1e-16")), "f": ident(6)}


def own_epoch(v, r):
    return [("epoch copied", v["_res"].epoch is not v["_objs"]["epoch"]), ("estimate copied", v["_res"].x00 is not v["_objs"]["propagator"].state.vector)]


Contract("nav.RelativeKalman", FI + "RelativeKalman", [("epoch", EPOCH), ("propagator", HILL)], NEWF, lambda v: started(v["epoch"], v["propagator"]), requires=lambda v: [lt(ZERO, v["propagator"]["n"])], post=own_epoch, fresh=False, stub=False,
         note="the filter keeps the propagator it is given, and starts on the class's default covariance and noise matrices, which no operation alters")

QK = sat.CraftTy(propagator=sat.PropTy(sat.ST1), wfov=sat.CAM, nfov=sat.CAM, pointing_accuracy=Real(1e-6, 0.001, ()), filter=KF(list(ALL)))


def fed(view, p):
    cap = view["_cap"] = []

    def hook(c, vw, objs):
        if c.id == "nav.process":
            cap.append((vw, objs))

    return hook


def fed_post(cam):
    def f(v, r):
        s, new = v["self"], v["_new"]["self"]
        want = sat.observed(cam)(v)
        out = [("filter at the current epoch", eq(new["filter"]["epoch"], sat.st(s)["epoch"])), ("range error of the sensor", eq(new["filter"]["range_error"], want["range_error"])), ("pointing accuracy", eq(new["filter"]["angular_error"], s["pointing_accuracy"]))]
        cap = v.get("_cap")
        if cap is not None and not v.get("_concrete"):
            out.append(("one observation processed", len(cap) == 1))
            if cap:
                vw = cap[0][0]["ob"]
                out += [("observed from the current state", veq(vw["observer_state"]["vector"] + [vw["observer_state"]["epoch"]], sat.st(s)["vector"] + [sat.st(s)["epoch"]])),
                        ("noisy range of the target", eq(norm2(vw["observed_direction"]), power(mag(sat.los(v)) + vw["range_error"] * v["_draw"]("gauss"), 2)))]
        return out

    return f


def fed_gen(r, v):
    s, t = sat.st(v["self"]), sat.st(v["target"])
    v["self"]["filter"]["epoch"] = s["epoch"] - r.choice([0.0, r.uniform(0, 0.05)])
    k = 10 ** r.uniform(0, 1.5)
    t["position"] = [x + r.gauss(0, k) for x in s["position"]]
    t["epoch"] = s["epoch"]


for n_ in ("wfov", "nfov"):
    sat.Sp("process_" + n_, ".process_" + n_, [("self", QK), ("target", sat.QT)], None, None, modifies=sat.unchanged("self"), on_call=fed, post=fed_post(n_), gen=fed_gen, stub=False, tol=1e-6, assume_pre=["nav.process"],
           requires=lambda v, n=n_: [nonzero(sat.los(v)), lt(ZERO, v["target"]["body_radius"]), lt(ZERO, v["self"]["filter"]["propagator"]["n"])] + sat.PFOK(v["self"][n]) + sat.turning(sat.st(v["self"])),
           note="the noisy line of sight is assumed not to lie on the observer's orbit normal")


class Starting(KF):
    def __init__(s):
        super().__init__(["epoch", "propagator", "x00", "p00", "q", "f"])


def acquired(v, r):
    s, new = v["self"], v["_new"]["self"]
    f = STARTF.view(v["_objs"]["self"].filter)
    if v.get("_concrete"):
        from dv.verify import exact
        from dv.engine import vmap
        f = vmap(exact, f)
    h = to_hcw(sat.st(s), sat.st(v["seed"]))
    a = sat.sma_of(s)
    want = started(sat.st(s)["epoch"], {"state": h, "n": sqrt(div(lift(sat.MUE), a * a * a))})
    return [("filter starts at the current epoch", eq(f["epoch"], want["epoch"])), ("on the seed's relative state", veq(f["x00"], want["x00"])), ("with the observer's mean motion", eq(f["propagator"]["n"] * f["propagator"]["n"] * a * a * a, sat.MUE))]


STARTF = KF(["epoch", "propagator", "x00"])


def acq_post(v, r):
    return sat.track_post("target")({**v, "target": v["seed"], "_new": {**v["_new"], "target": v["_new"]["seed"]}, "_objs": {**v["_objs"], "target": v["_objs"]["seed"]}}, r) + acquired(v, r)


def acq_gen(r, v):
    s, t = sat.st(v["self"]), sat.st(v["seed"])
    t["epoch"] = s["epoch"]
    m = math.sqrt(sum(x * x for x in s["position"]))
    w = math.sqrt(sum(x * x for x in s["velocity"]))
    k = r.uniform(0.5, 1.3) * math.sqrt(398600.0 / m) / max(w, 1e-9)
    s["velocity"] = [x * k for x in s["velocity"]]


def tie_acq(v):
    sat.st(v["seed"])["epoch"] = sat.st(v["self"])["epoch"]


sat.Sp("acquire", ".acquire", [("self", sat.craft(["lvlh", "solar"])), ("seed", sat.TGT)], None, None, modifies=sat.unchanged("self", "seed"), post=acq_post, gen=acq_gen, tie=tie_acq,
       facts=lambda v, r: sat.track_facts("target")({**v, "target": v["seed"], "_new": {**v["_new"], "target": v["_new"]["seed"]}}, r), fresh=False,
       requires=lambda v: sat.OLDZ(v) + sat.pointable("target", v["self"], v["seed"]) + sat.pointable("lvlh", v["seed"]) + off_axis(sat.st(v["self"]), sat.st(v["seed"])) + sat.BOUND(v), stub=False, scale=1, tol=1e-6, mptol=1e-10, assume_pre=["force.derivative"])
# the filter alone (no attitude)
Contract("nav.acquire", sat.AR + "Spacecraft.acquire", [("self", sat.craft(["lvlh"])), ("seed", sat.TGT)], None, None, modifies=sat.unchanged("self", "seed"), post=acquired, gen=acq_gen, tie=tie_acq, fresh=False,
             requires=REG["sat.acquire"].requires, stub=False, scale=1, tol=1e-6, mptol=1e-10, assume_pre=["force.derivative"])
