"""Contracts of the spacecraft (queries, maneuvers, attitude, detection, simulated observations), cameras and ground-site tracking."""
import math
import mpmath as mp
from dv import terms as tm
from dv.engine import Contract
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from contracts.timefn import MUE
from contracts.linalg import angle_spec
from contracts.force import S_, M_
from contracts.state import frame, turning, to_hcw, off_axis
from contracts.craft import RKTy, STATE0, moved, rk_step, step_opaque, burned, burn_time, G0, DAY, MDOT, DV, burning, STEPOK, burn_until, orbiting
from contracts.celestial import to_itrf
from contracts.ground import lla_itrf, SITE, GROUND, ground_obs, enz_pos, SPACE, sph_of

AR = "openspace.bodies.artificial:"
HW = "openspace.hardware."
R = Real()
PR = Real(0.001, 1.0, ())
LIM = Rec(HW + "constraints:OpticalConstraints", {k: Real(0.0, 1.6, ()) for k in ("sun_hard", "sun_soft", "moon", "earth", "bore")} | {"vismag": Real(-5, 25), "characterization": Real(1, 1e4)}, ctor=[])


class CamTy(Rec):
    """built by the real constructor, limits then set freely"""

    def __init__(s):
        super().__init__(HW + "payloads:Camera", {"pixels": Real(100, 5000, ()), "fov": Real(0.001, 1.2, ()), "limits": LIM, "resolution_factor": Real(1e-4, 1e-2, ())}, ctor=["pixels", "fov"])

    def build(s, ns, v):
        o = ns.get(s.cls)(v["pixels"], v["fov"])
        LIM.put(ns, o.limits, v["limits"])
        o.resolution_factor = v["resolution_factor"]
        return o


CAM = CamTy()
STATEQ = StateTy("GCRF")
STATEP = StateTy("GCRF", extra={"thrust": Vec(3, -1e-4, 1e-4), "srp_scalar": Enum(0.0), "use_perturbations": BOOL})


class PropTy(RKTy):
    """the propagator as far as queries see it: its state"""

    def __init__(s, st=STATEQ):
        Rec.__init__(s, "openspace.propagators.inertial:RK4", {"state": st}, ctor=["state"])


class FlagVal(int):
    """a concrete flag that remembers the number it was made from"""


class Flag(Ty):
    """a boolean attribute that is decided only where the code asks for it: `0 < x` for a free x"""

    def fresh(s, p):
        return Real().fresh(p)

    def build(s, ns, v):
        if isinstance(v, T):
            return tm.Given("<", ZERO, v)
        f = FlagVal(v > 0)
        f.src = v
        return f

    def view(s, o):
        if isinstance(o, tm.B):
            return o.b
        return getattr(o, "src", 1.0 if o else -1.0) if not isinstance(o, bool) else lift(1 if o else -1)

    def sample(s, r):
        return r.choice([1.0, -1.0])


class Mode(Ty):
    """the steering mode where it must not matter (sampled; the proofs run in the nadir mode)"""

    def fresh(s, p):
        return "lvlh"

    def build(s, ns, v):
        return v

    view = lambda s, o: o

    def sample(s, r):
        return r.choice(["lvlh", "solar", "target"])


# what an operation does not read holds anything
POSR = lambda a, b: Real(a, b, ())
AMBIENT = {"steering": Mode(), "slewing": Flag(), "slew_stop": EPOCH, "slew_scalar": POSR(1e-4, 2e-3), "pointing_accuracy": POSR(1e-6, 0.01), "albedo": POSR(0.05, 1.0), "body_radius": POSR(0.0005, 0.05),
           "m_dot": POSR(0.001, 0.5), "isp": POSR(100, 400), "dry_mass": POSR(100, 900), "propellant_mass": POSR(50, 900), "body_x": DIR, "body_y": DIR, "body_z": DIR}
PROPS = ("slew_scalar", "pointing_accuracy", "albedo", "body_radius", "m_dot", "isp", "dry_mass", "propellant_mass")
props = lambda c: {k: c[k] for k in PROPS}  # what a spacecraft is, as opposed to where it is and where it points
unchanged = lambda *names: {n: (lambda v, n=n: props(v[n])) for n in names}


class CraftTy(Rec):
    """a spacecraft in any condition: created by the real constructor, then its attributes are set"""

    def __init__(s, bare=False, **fields):
        super().__init__(AR + "Spacecraft", fields if bare else {**fields, **{k: t for k, t in AMBIENT.items() if k not in fields}}, ctor=[])

    def build(s, ns, v):
        st = ns.get("openspace.coordinates.states:GCRF")(EPOCH.build(ns, 51544), V3.build(ns, [7000, 0, 0]), V3.build(ns, [0, 8, 0]))
        o = ns.get(s.cls)(st)
        s.put(ns, o, v)
        return o

    def put(s, ns, o, v):
        for k, t in s.fields.items():
            if v.get(k, ANY) is not ANY:
                setattr(o, k, t.build(ns, v[k]))

    def view(s, o):
        return {k: t.view(getattr(o, k)) for k, t in s.fields.items() if k not in AMBIENT or hasattr(o, k)}


PHYS = {"albedo": Real(0.05, 1.0, ()), "body_radius": Real(0.0005, 0.05, ())}
Q1 = CraftTy(propagator=PropTy())
QT = CraftTy(propagator=PropTy(), **PHYS)


def Sp(id, target, params, result, spec, **k):
    return Contract("sat." + id, AR + "Spacecraft" + target, params, result, spec, **k)


st = lambda c: c["propagator"]["state"]
pos = lambda c: st(c)["position"]
ang = lambda a, b: angle_spec({"self": a, "b": b})
los = lambda v: sub(pos(v["target"]), pos(v["self"]))
sun = lambda c: sub(S_(st(c)["epoch"]), pos(c))
moon = lambda c: sub(M_(st(c)["epoch"]), pos(c))
earth = lambda c: scale(pos(c), -1)
SELF = [("self", Q1)]
PAIR = [("self", Q1), ("target", QT)]

# --------------------------------------------------------------------- queries
SQ = CraftTy(propagator=PropTy(STATEP))
Sp("current_state", ".current_state", [("self", SQ)], STATEP, lambda v: st(v["self"]), stub=False)
Sp("current_epoch", ".current_epoch", SELF, EPOCH, lambda v: st(v["self"])["epoch"], stub=False)
Sp("position", ".position", SELF, V3, lambda v: pos(v["self"]), stub=False)
Sp("velocity", ".velocity", SELF, V3, lambda v: st(v["self"])["velocity"], stub=False)
Sp("sun_vector", ".sun_vector", SELF, V3, lambda v: sun(v["self"]), stub=False)
Sp("moon_vector", ".moon_vector", SELF, V3, lambda v: moon(v["self"]), stub=False)
Sp("earth_vector", ".earth_vector", SELF, V3, lambda v: earth(v["self"]), stub=False)
Sp("target_vector", ".target_vector", PAIR, V3, los, stub=False)
Sp("range", ".range", PAIR, R, lambda v: mag(los(v)), stub=False)
for nm_, f_ in (("sun", sun), ("moon", moon), ("earth", earth)):
    Sp(nm_ + "_angle", f".{nm_}_angle", PAIR, R, lambda v, f=f_: ang(f(v["self"]), los(v)), requires=lambda v, f=f_: [nonzero(f(v["self"])), nonzero(los(v))], scale=1)
Sp("hill_position", ".hill_position", PAIR, V3, lambda v: to_hcw(st(v["self"]), st(v["target"]))["position"], requires=lambda v: off_axis(st(v["self"]), st(v["target"])), stub=False, tol=1e-6)


def sma_of(c):
    v = st(c)["velocity"]
    return div(ONE, div(lift(2), mag(pos(c))) - div(norm2(v), MUE))


BOUND = lambda v: [nonzero(pos(v["self"])), lt(norm2(st(v["self"])["velocity"]) * mag(pos(v["self"])), 2 * MUE)]
Sp("sma", ".sma", SELF, R, lambda v: sma_of(v["self"]), requires=BOUND, stub=False)

# --------------------------------------------------------------------- mass, area
MASS = {"m_dot": Real(0.001, 0.5, ()), "isp": Real(100, 400, ()), "dry_mass": Real(100, 900, ()), "propellant_mass": Real(50, 900, ())}
QM = CraftTy(**PHYS, **MASS)
wet = lambda c: c["dry_mass"] + c["propellant_mass"]
Sp("area", ".area", [("self", QM)], R, lambda v: PI * v["self"]["body_radius"] * v["self"]["body_radius"], stub=False)
Sp("total_mass", ".total_mass", [("self", QM)], R, lambda v: wet(v["self"]), stub=False)
Sp("srp_scalar", ".srp_scalar", [("self", QM)], R, lambda v: div((v["self"]["albedo"] + 1) * PI * v["self"]["body_radius"] * v["self"]["body_radius"] * 1000000, wet(v["self"])),
   requires=lambda v: [lt(ZERO, wet(v["self"]))], stub=False)

# --------------------------------------------------------------------- cameras
def Cm(id, target, params, result, spec, **k):
    return Contract("cam." + id, HW + target, params, result, spec, **k)


RAD = lambda d: PI * d / 180


def limits(px, fov):
    return {"sun_hard": RAD(60), "sun_soft": RAD(90), "moon": RAD(10), "earth": RAD(20), "vismag": lift(15), "bore": fov, "characterization": div(Q("0.00001") * 2 * px, div(sin(fov), cos(fov)))}


def camera(px, fov):
    return {"pixels": px, "fov": fov, "limits": limits(px, fov), "resolution_factor": div(ONE, 2 * lift(px))}


PF = [("pixels", Real(100, 5000, ())), ("fov", Real(0.001, 1.2, ()))]
PFOK = lambda v: [lt(ZERO, v["pixels"]), lt(ZERO, v["fov"]), lt(v["fov"], PI / 2)]
CAMOK = lambda v: PFOK(v["self"])
tanf = lambda c: div(sin(c["fov"]), cos(c["fov"]))
reso = lambda c, r: tanf(c) * r * c["resolution_factor"]
Cm("OpticalConstraints", "constraints:OpticalConstraints", PF, LIM, lambda v: limits(v["pixels"], v["fov"]), requires=PFOK, stub=False)
Cm("Camera", "payloads:Camera", PF, CAM, lambda v: camera(v["pixels"], v["fov"]), requires=PFOK, stub=False)
Cm("Camera.wfov", "payloads:Camera.wfov", [], CAM, lambda v: camera(lift(3072), RAD(5)), stub=False)
Cm("Camera.nfov", "payloads:Camera.nfov", [], CAM, lambda v: camera(lift(3072), RAD(Q("0.125"))), stub=False)
Cm("resolution", "payloads:Camera.resolution", [("self", CAM), ("r", Real(0, 60000))], R, lambda v: reso(v["self"], v["r"]), requires=CAMOK, stub=False)
Cm("range_error", "payloads:Camera.range_error", [("self", CAM), ("r", Real(0, 60000)), ("d", Real(0.001, 0.1, ()))], R, lambda v: div(reso(v["self"], v["r"]), v["d"]) * v["r"],
   requires=lambda v: CAMOK(v) + [lt(ZERO, v["d"])], stub=False)
Cm("tracking_minimum", "payloads:Camera.tracking_minimum", [("self", CAM), ("body_r", Real(0.001, 0.1, ()))], R, lambda v: div(v["body_r"], tanf(v["self"])), requires=CAMOK, stub=False)
Cm("lemma.characterization", None or "payloads:Camera", PF, R, lambda v: Q("0.00001"), requires=PFOK, stub=False, tol=1e-9,
   call=lambda ns, o: (lambda c: c.resolution(c.limits.characterization))(ns.get(HW + "payloads:Camera")(o["pixels"], o["fov"])))

# --------------------------------------------------------------------- detection
def phase(th):
    """Lambert sphere seen at solar phase angle pi - th"""
    p = PI - th
    return sin(p) + (PI - p) * cos(p)


def flux(v):
    """diffuse reflection of the target's sphere, with the target's own albedo and radius"""
    t = v["target"]
    d = los(v)
    return Q(2) / 3 * t["albedo"] * t["body_radius"] * t["body_radius"] * phase(ang(sun(v["self"]), d)) / (PI * norm2(d))


def vismag(v):
    return Q("-26.74") - Q("2.5") * div(log(flux(v)), log(lift(10)))


SEEN = lambda v: [nonzero(los(v)), nonzero(sun(v["self"])), lt(ZERO, v["target"]["albedo"]), lt(ZERO, v["target"]["body_radius"])]
LIT = lambda v: [lt(ZERO, phase(ang(sun(v["self"]), los(v))))]
QO = CraftTy(propagator=PropTy(), **PHYS)
PAIRO = [("self", QO), ("target", QT)]
Sp("visual_magnitude", ".visual_magnitude", PAIRO, R, vismag, requires=lambda v: SEEN(v) + LIT(v), scale=1, tol=1e-6)
QD = CraftTy(propagator=PropTy(), body_z=DIR, wfov=CAM, nfov=CAM, **PHYS)


def detected(v):
    s, l, d = v["self"], v["self"]["wfov"]["limits"], los(v)
    return land(ge(ang(sun(s), d), l["sun_soft"]), ge(ang(earth(s), d), l["earth"]), ge(ang(moon(s), d), l["moon"]), le(vismag(v), l["vismag"]), le(ang(s["body_z"], d), l["bore"]))


def detect_gen(r, v):
    """targets in view, with a random limit close to the geometry"""
    s, t = st(v["self"]), st(v["target"])
    k = 10 ** r.uniform(0, 3 if r.random() < 0.9 else 8)
    t["position"] = [x + r.gauss(0, k) for x in s["position"]]
    if r.random() < 0.7:
        d = [a - b for a, b in zip(t["position"], s["position"])]
        v["self"]["body_z"] = [x + r.gauss(0, 0.05 * k) for x in d]
        l = v["self"]["wfov"]["limits"]
        for n in ("sun_soft", "earth", "moon"):
            l[n] = r.uniform(0.02, 0.4)
        l["bore"], l["vismag"] = r.uniform(0.2, 1.5), r.uniform(16, 30 if k < 1e3 else 60)
        if r.random() < 0.6:
            n = r.choice(["sun_soft", "earth", "moon", "bore", "vismag"])
            l[n] = {"bore": 0.01, "vismag": 5.0}.get(n, 2.5)


Sp("detect", ".detect", [("self", QD), ("target", QT)], AnyBool(), detected, requires=lambda v: SEEN(v) + LIT(v) + [nonzero(pos(v["self"])), nonzero(moon(v["self"])), nonzero(v["self"]["body_z"])], gen=detect_gen, stub=False, quick=60)

# --------------------------------------------------------------------- maneuvers
RKP = RKTy(state=STATEP)
QB = CraftTy(propagator=PropTy(STATEP))
QF = CraftTy(propagator=RKP, **MASS)
ric = lambda c, d: mv(tr(frame(st(c))), d)


def impulse(v):
    s = st(v["self"])
    return {**props(v["self"]), **{k: v["self"][k] for k in ("steering", "slewing", "slew_stop")}, "propagator": {"state": {**gcrf(s["epoch"], s["position"], add(s["velocity"], ric(v["self"], v["ric_burn"]))), "use_perturbations": ANY}}}


Sp("impulsive_maneuver", ".impulsive_maneuver", [("self", QB), ("ric_burn", DV)], None, None, requires=lambda v: turning(st(v["self"])), modifies={"self": impulse}, stub=False, tol=1e-8, timeout=60)


def finite(v):
    c, dv = v["self"], v["ric_dv"]
    g = ric(c, dv)
    m = wet(c)
    return {**c, "propagator": burned(c["propagator"], g, c["m_dot"], m, c["isp"]), "propellant_mass": ANY}


def finite_post(v, r):
    c, new = v["self"], v["_new"]["self"]
    g, m = ric(c, v["ric_dv"]), wet(c)
    x = mag(v["ric_dv"])
    used = c["propellant_mass"] - new["propellant_mass"]
    return [("propellant used is the mass flow over the burn", eq(used, c["m_dot"] * burn_time(g, c["m_dot"], m, c["isp"]))),
            ("the burn lasts the rocket equation's duration", eq(m - used, m * exp(-div(mag(g), c["isp"] * G0)))),
            ("the burn keeps its size in the inertial frame", eq(norm2(g), norm2(v["ric_dv"])))]


def finite_gen(r, v):
    c = v["self"]
    d = math.sqrt(sum(x * x for x in v["ric_dv"]))
    m = c["dry_mass"] + c["propellant_mass"]
    t = m / c["m_dot"] * (1 - math.exp(-d / (c["isp"] * 0.00981)))
    if t > 2500:
        c["m_dot"] *= t / r.uniform(200, 2500)
    orbiting(r, st(c))


FINOK = lambda v: turning(st(v["self"])) + [nonzero(v["ric_dv"]), nonzero(ric(v["self"], v["ric_dv"]))] + [lt(ZERO, v["self"][k]) for k in MASS]
Sp("finite_maneuver", ".finite_maneuver", [("self", QF), ("ric_dv", DV)], None, None, requires=FINOK, modifies={"self": finite}, post=finite_post, gen=finite_gen, stub=False, tol=1e-6, mptol=1e-9)

# --------------------------------------------------------------------- attitude
MODES = ["lvlh", "solar", "target"]
ST1 = StateTy("GCRF", extra={"thrust": Vec(3, -1e-4, 1e-4), "srp_scalar": Enum(0.0), "use_perturbations": Enum(True)})
RK1 = RKTy(state=ST1, m_dot=Enum(0.0))
SLEW = {"slewing": BOOL, "slew_stop": EPOCH, "slew_scalar": Real(1e-4, 2e-3, ())}
BODY = {"body_x": DIR, "body_y": DIR, "body_z": DIR}


class TargetTy(CraftTy):
    """a spacecraft that can be tracked; its own steering is irrelevant to its position"""

    def __init__(s):
        super().__init__(propagator=RK1, steering=Enum("lvlh"), **BODY)


TGT = TargetTy()


def craft(mode, **k):
    return CraftTy(propagator=k.pop("prop", RK1), steering=Enum(*([mode] if isinstance(mode, str) else mode)), **BODY, **SLEW, **k)


def aligned(a, d, v):
    """a points along d"""
    if v.get("_concrete"):
        return eq(div(dot(a, d), mag(a) * mag(d)), 1)
    return land(veq(cross(a, d), [ZERO] * 3), lt(ZERO, dot(a, d)))


def square(v, c):
    x, y, z = c["body_x"], c["body_y"], c["body_z"]
    u = (lambda a, b: eq(div(dot(a, b), mag(a) * mag(b)), 0)) if v.get("_concrete") else (lambda a, b: eq(dot(a, b), 0))
    tri = lt(ZERO, det3([x, y, z]))
    if v.get("_concrete"):
        tri = lt(Q("0.5"), div(det3([x, y, z]), mag(x) * mag(y) * mag(z)))
    return [("body axes orthogonal", land(u(x, y), u(y, z), u(z, x))), ("right-handed", tri)]


def pointing(mode, c, target=None):
    """where the z-axis has to point"""
    if mode == "lvlh":
        return earth(c)
    if mode == "solar":
        return scale(sun(c), -1)
    return sub(pos(target), pos(c))


def pointable(mode, c, target=None):
    """the commanded pointing determines the axes"""
    if mode == "lvlh":
        return turning(st(c))
    if mode == "solar":
        d = sun(c)
        return [lt(ZERO, d[0] * d[0] + d[1] * d[1])]
    return [nonzero(cross(sub(pos(target), pos(c)), sun(c)))]


def settle(v, old, new):
    """slewing ends exactly when the current time passes the stop time"""
    now = st(new)["epoch"]
    if old["slewing"] is not True:
        return [("not slewing", new["slewing"] is False)]
    f = lt(old["slew_stop"], now)
    return [("slewing until the stop time", negate(f) if new["slewing"] is True else f), ("stop time kept", eq(new["slew_stop"], old["slew_stop"]))]


def keeps(old, new, names):
    out = []
    for n in names:
        a, b = old[n], new[n]
        out.append((n + " kept", a == b if isinstance(a, (str, bool)) else veq(a, b) if isinstance(a, list) else eq(a, b)))
    return out


def attitude_post(mode):
    def f(v, r):
        new = v["_new"]["self"]
        tg = new.get("tracked_target")
        out = square(v, new) + [("z-axis where commanded", aligned(new["body_z"], pointing(mode, new, tg), v)), ("steering kept", new["steering"] == mode)] + settle(v, v["self"], new)
        if tg is not None:
            out.append(("target at the current epoch", eq(st(tg)["epoch"], st(new)["epoch"])))
        return out

    return f


def attitude_facts(mode):
    """the axes identities, with the pointing direction and the second reference direction generalised"""

    def f(v, r):
        new = v["_new"]["self"]
        if v.get("_concrete") or mode == "lvlh":
            return []
        tg = new.get("tracked_target")
        d = pointing(mode, new, tg)
        if mode == "solar":
            use, gen = [lt(ZERO, d[0] * d[0] + d[1] * d[1])], d
        else:
            s = sun(new)
            use, gen = [nonzero(cross(d, s))], d + s
        return [("gen", g, use, [x for x in gen if isinstance(x, T)]) for _, fs in square(v, new) for g in (fs[1] if isinstance(fs, tuple) else [fs])]

    return f


def synced(c, t):
    """the target as it is at the spacecraft's epoch"""
    return {**t, "propagator": moved(t["propagator"], st(c)["epoch"])}


def same_time_gen(r, v):
    c = v["self"]
    k = 10 ** r.uniform(-6, -2)
    c["slew_stop"] = st(c)["epoch"] + r.choice([0.0, k, -k])
    for t in (c.get("tracked_target"), v.get("target")):
        if t is not None:
            st(t)["epoch"] = st(c)["epoch"] + r.choice([0.0, 0.002, -0.005])
    if "epoch" in v:
        v["epoch"] = st(c)["epoch"] + r.choice([0.0, 0.001, -0.004])


ATT = dict(stub=False, scale=1, tol=1e-6, mptol=1e-10, gen=same_time_gen, assume_pre=["force.derivative"])
for m_ in MODES:
    c_ = craft(m_) if m_ != "target" else craft(m_, tracked_target=TGT)
    req_ = (lambda v, m=m_: pointable(m, v["self"])) if m_ != "target" else (lambda v: pointable("target", v["self"], synced(v["self"], v["self"]["tracked_target"])) + pointable("target", v["self"], v["self"]["tracked_target"]) + pointable("lvlh", v["self"]["tracked_target"]))
    Sp("update_attitude." + m_, ".update_attitude", [("self", c_)], None, None, requires=req_, modifies=unchanged("self"), post=attitude_post(m_), facts=attitude_facts(m_), keeps_ref=("self",), **ATT)


def slew_post(old, new, mode, v, d):
    """switching mode starts a slew lasting the angle between old and new pointing over the slew rate"""
    if old["steering"] == mode:
        return settle(v, old, new)
    now = st(new)["epoch"]
    return [("slewing", new["slewing"] is True), ("slew lasts the angle over the rate", eq(new["slew_stop"], now + ang(old["body_z"], d) * old["slew_scalar"]))]


def track_post(mode):
    def f(v, r):
        old, new = v["self"], v["_new"]["self"]
        tg = v["_new"].get("target")
        d = pointing(mode, new, tg)
        out = square(v, new) + [("z-axis where commanded", aligned(new["body_z"], d, v)), ("steering", new["steering"] == mode), ("propagated nowhere", veq(st(new)["vector"] + [st(new)["epoch"]], st(old)["vector"] + [st(old)["epoch"]]))]
        out += slew_post(old, new, mode, v, d)
        if tg is not None:
            out.append(("target at the current epoch", eq(st(tg)["epoch"], st(new)["epoch"])))
            out.append(("tracks the commanded target", v["_objs"]["self"].tracked_target is v["_objs"]["target"]))
        return out

    return f


def track_facts(mode):
    base = attitude_facts(mode)

    def f(v, r):
        new = v["_new"]["self"]
        if "target" in v["_new"]:
            v = {**v, "_new": {"self": {**new, "tracked_target": v["_new"]["target"]}}}
        return base(v, r)

    return f


OLDZ = lambda v: [nonzero(v["self"]["body_z"]), lt(ZERO, v["self"]["slew_scalar"])]
for m_, fn_ in (("lvlh", "track_lvlh"), ("solar", "track_sun")):
    Sp(fn_, "." + fn_, [("self", craft(MODES))], None, None, requires=lambda v, m=m_: OLDZ(v) + pointable(m, v["self"]), modifies=unchanged("self"), post=track_post(m_), facts=track_facts(m_), **ATT)


def trackable(v):
    c, t = v["self"], v["target"]
    return OLDZ(v) + pointable("target", c, synced(c, t)) + pointable("target", c, t) + pointable("lvlh", t)


for o_ in MODES:
    Sp("track_state.from_" + o_, ".track_state", [("self", craft(o_) if o_ != "target" else craft(o_, tracked_target=TGT)), ("target", TGT)], None, None, requires=trackable,
       modifies=unchanged("self", "target"), post=track_post("target"), facts=track_facts("target"), **ATT)


# propagation refreshes the attitude
def carried(v, mode, stepped):
    """self after stepping: the propagator's result, attitude by the posts"""
    return {"propagator": stepped(v)}


PERT = RKTy(state=STATEP, m_dot=Enum(0.0))
for m_ in MODES:
    c_ = craft(m_, prop=PERT) if m_ != "target" else craft(m_, prop=PERT, tracked_target=TGT)
    for fn_, par_, new_ in (("step", [], lambda v: step_opaque(v["self"]["propagator"])), ("step_to_epoch", [("epoch", EPOCH)], lambda v: moved(v["self"]["propagator"], v["epoch"]))):

        def req_(v, m=m_, new=new_):
            c = {**v["self"], "propagator": new(v)}
            if m != "target":
                return pointable(m, c)
            t = c["tracked_target"]
            return pointable("target", c, synced(c, t)) + pointable("target", c, t) + pointable("lvlh", t)

        def mod_(v, new=new_):
            n = new(v)
            return {**props(v["self"]), "propagator": {**n, "state": {k: x for k, x in n["state"].items() if k != "thrust"}}}

        Sp(fn_ + "." + m_, "." + fn_, [("self", c_)] + par_, None, None, requires=req_, modifies={"self": mod_}, post=attitude_post(m_), facts=attitude_facts(m_), keeps_ref=("self",), **ATT)


def made(v):
    s = v["state"]
    e, r, w = s["epoch"], s["position"], s["velocity"]
    h = cross(r, w)
    return {"propagator": {"state": {k: x for k, x in s.items() if k != "srp_scalar"}}, "steering": "lvlh", "slewing": False, "albedo": Q("0.3"), "body_radius": Q("0.005"), "m_dot": Q("0.003"), "isp": lift(350),
            "dry_mass": lift(600), "propellant_mass": lift(200), "pointing_accuracy": Q("0.00001"), "wfov": camera(lift(3072), RAD(5)), "nfov": camera(lift(3072), RAD(Q("0.125")))}


NEW = CraftTy(bare=True, propagator=PropTy(GCRF), steering=Enum("lvlh"), slewing=Enum(False), wfov=CAM, nfov=CAM, **PHYS, **MASS, **BODY, pointing_accuracy=R)
Sp("Spacecraft", "", [("state", GCRF)], NEW, made, requires=lambda v: turning(v["state"]), stub=False, scale=1,
   post=lambda v, r: square(v, r) + [("z-axis to Earth", aligned(r["body_z"], scale(v["state"]["position"], -1), v))])


def coefficient(v, r):
    k = lift(v["_res"].initial_state.srp_scalar)
    return [("radiation coefficient of the initial state", eq(k, div(Q("1.3") * PI * Q("25e-6") * 1000000, lift(800))))]


Sp("Spacecraft.srp", "", [("state", GCRF)], NEW, None, requires=lambda v: turning(v["state"]), stub=False, post=coefficient)


# --------------------------------------------------------------- simulated observations
QS = CraftTy(propagator=PropTy(STATEP), wfov=CAM, nfov=CAM, pointing_accuracy=Real(0.0, 0.01, (0.0,)))


def observed(cam):
    def f(v):
        s, c = v["self"], v["self"][cam]
        d = mag(los(v))
        return {"observer_state": {k: x for k, x in st(s).items() if k != "srp_scalar"}, "range_error": div(reso(c, d), v["target"]["body_radius"] * 2) * d, "angular_error": s["pointing_accuracy"]}

    return f


def noisy_range(cam):
    def f(v, r):
        d = mag(los(v))
        return [("range noise of the sensor's range error", eq(norm2(r["observed_direction"]), power(d + r["range_error"] * v["_draw"]("gauss"), 2)))]

    return f


for n_ in ("wfov", "nfov"):
    Sp("observe_" + n_, ".observe_" + n_, [("self", QS), ("target", QT)], SPACE, observed(n_), post=noisy_range(n_), stub=False, tol=1e-6,
       requires=lambda v, n=n_: [nonzero(los(v)), lt(ZERO, v["target"]["body_radius"])] + PFOK(v["self"][n]), note="assumes the drawn range is not exactly zero")
Contract("geo.GroundSite.angles_and_range", "openspace.bodies.terrestrial:GroundSite.angles_and_range", [("self", SITE), ("target", Q1)], GROUND,
         lambda v: ground_obs({"observer_state": state(st(v["target"])["epoch"], lla_itrf(v["self"]["lla"]), [ZERO] * 3), "observed_direction": enz_pos(v["self"]["lla"], to_itrf(pos(v["target"]), st(v["target"])["epoch"])), "r_error": ZERO, "ang_error": ZERO}),
         stub=False, tol=1e-6)
