"""Contracts of the inertial propagator and the spacecraft (propagation, maneuvers, attitude, sensing)."""
import math
import mpmath as mp
from dv import terms as tm
from dv.engine import Contract
from dv.tys import *
from dv.spec import *
from dv.verify import ANY
from contracts.force import acc, net, mp_ratio
from contracts.state import same_but_srp, srp_post

IN = "openspace.propagators.inertial:"
R = Real()
G0 = Q("0.00981")
MAXSTEP = 300
DAY = 86400
THR = Vec(3, -1.0, 1.0)
MDOT = Real(0.0, 0.02, (0.0, 0.003), p=0.5)
STATE0 = StateTy("GCRF", extra={"thrust": Vec(3, -1e-4, 1e-4), "srp_scalar": Enum(0.0), "use_perturbations": BOOL})
RKF = {"state": STATE0, "step_size": Real(-600, 600, (300.0,)), "m_dot": MDOT, "m0": Real(200, 900), "thrust_direction": THR, "isp": Real(100, 400)}


class RKTy(Rec):
    def __init__(s, **over):
        super().__init__(IN + "RK4", {**RKF, **over}, ctor=["state"])

    def build(s, ns, v):
        o = super().build(ns, v)
        o.state = s.fields["state"].build(ns, v["state"])
        return o


RK = RKTy()


def Rc(id, target, params, result, spec, **k):
    return Contract("rk4." + id, IN + target, params, result, spec, **k)


def rk_new(s):
    return {"state": same_but_srp(s), "step_size": lift(MAXSTEP), "m_dot": ZERO, "m0": ZERO, "thrust_direction": [ZERO] * 3, "isp": ZERO}


Rc("RK4", "RK4", [("state", GCRF)], RKTy(state=GCRF), lambda v: rk_new(v["state"]), stub=False)


# ------------------------------------------------------------------- thrust
def burning(s, dt):
    """the burn is well posed: mass flow on, a direction, and mass left at dt"""
    if s["m_dot"] is ZERO or (isinstance(s["m_dot"], T) and s["m_dot"].op == "c" and s["m_dot"].args[0] == 0):
        return []
    off = eq(s["m_dot"], 0)
    return [lor(off, nonzero(s["thrust_direction"])), lor(off, lt(ZERO, s["m0"])), lor(off, lt(s["m_dot"] * dt, s["m0"]))]


def thrust(s, dt):
    """acceleration along the commanded direction, thrust over current mass"""
    if lift(s["m_dot"]) == 0:
        return [ZERO] * 3
    return scale(unit(s["thrust_direction"]), div(s["m_dot"] * s["isp"] * G0, s["m0"] - s["m_dot"] * dt))


COAST = {"name": "coasting", "fix": {"self.m_dot": 0.0}}
BURN = {"name": "burning", "requires": lambda v: [ne(v["self"]["m_dot"], 0)]}
Rc("thrust_vector", "RK4.thrust_vector", [("self", RK), ("dt", Real(0, 300, (0.0,)))], V3, lambda v: thrust(v["self"], v["dt"]), requires=lambda v: burning(v["self"], v["dt"]), cases=[COAST, BURN])


# --------------------------------------------------------------------- step
def rk_step(s, h=None):
    """classical Runge-Kutta 4; thrust at the stage times, force model acc()"""
    h = s["step_size"] if h is None else h
    st = s["state"]
    e, r, v = st["epoch"], st["position"], st["velocity"]

    def f(dt, x, w):
        g = {**st, "epoch": e + dt / DAY, "position": x, "velocity": w, "thrust": thrust(s, dt), "srp_scalar": ZERO}
        return w, acc(g)

    hh = h / 2
    a1 = f(ZERO, r, v)
    a2 = f(hh, add(r, scale(a1[0], hh)), add(v, scale(a1[1], hh)))
    a3 = f(hh, add(r, scale(a2[0], hh)), add(v, scale(a2[1], hh)))
    a4 = f(h, add(r, scale(a3[0], h)), add(v, scale(a3[1], h)))
    inc = lambda i: [(p + 2 * q + 2 * t + u) * h / 6 for p, q, t, u in zip(a1[i], a2[i], a3[i], a4[i])]
    return {**s, "state": gcrf(e + h / DAY, add(r, inc(0)), add(v, inc(1)), pert=st["use_perturbations"]), "m0": s["m0"] - s["m_dot"] * h}


def step_args(s):
    st = s["state"]
    return [st["epoch"], *st["position"], *st["velocity"], s["m_dot"], s["m0"], *s["thrust_direction"], s["isp"], s["step_size"]]


def step_opaque(s):
    """what a caller sees of one step: epoch, mass and settings exactly, the trajectory as an opaque function of the inputs"""
    st, h = s["state"], s["step_size"]
    t = 1 if st["use_perturbations"] is True else 0
    x = [uf(f"rk{t}.{c}", *step_args(s)) for c in TRAJ]
    return {**s, "state": gcrf(st["epoch"] + h / DAY, x[:3], x[3:], pert=st["use_perturbations"]), "m0": s["m0"] - s["m_dot"] * h}


def step_num(t, i):
    def f(*a):
        key = ("s", t) + a
        if key not in TMEMO:
            if len(TMEMO) > 500:
                TMEMO.clear()
            saved, tm.HOOKS.ctx = tm.HOOKS.ctx, None
            try:
                k = lambda x: tm.const(Fraction(*mp_ratio(x)))
                s = {"state": gcrf(k(a[0]), [k(x) for x in a[1:4]], [k(x) for x in a[4:7]], pert=bool(t)), "m_dot": k(a[7]), "m0": k(a[8]), "thrust_direction": [k(x) for x in a[9:12]], "isp": k(a[12]), "step_size": k(a[13])}
                s = rk_step(s)
                TMEMO[key] = [x.num() for x in s["state"]["position"] + s["state"]["velocity"]]
            finally:
                tm.HOOKS.ctx = saved
        return TMEMO[key][i]

    return f


TRAJ = ["x", "y", "z", "vx", "vy", "vz"]
TMEMO = {}
for t_ in (0, 1):
    for i_, c_ in enumerate(TRAJ):
        tm.UF_IMPL[f"rk{t_}.{c_}"] = step_num(t_, i_)

STEPOK = lambda v: [c for dt in (ZERO, v["self"]["step_size"]) for c in burning(v["self"], dt)]
Rc("step", "RK4.step", [("self", RK)], None, None, requires=STEPOK, modifies={"self": lambda v: rk_step(v["self"]) if v.get("_check") or v.get("_concrete") else step_opaque(v["self"])}, cases=[COAST, BURN], assume_pre=["force.derivative"],
   note="the sub-step states are assumed to stay where the force model is defined (off Earth's centre and polar axis)", tol=1e-6, mptol=1e-10, timeout=60)


RKS = RKTy(state=StateTy("GCRF", extra={"thrust": Vec(3, -1e-4, 1e-4), "srp_scalar": Real(0, 0.1, (0.05,)), "use_perturbations": BOOL}))
Rc("step.srp", "RK4.step", [("self", RKS)], None, None, requires=STEPOK, modifies={"self": lambda v: {"state": {**{k: ANY for k in v["self"]["state"]}, "use_perturbations": v["self"]["state"]["use_perturbations"], "epoch": v["self"]["state"]["epoch"] + v["self"]["step_size"] / DAY}, "m0": ANY}},
   post=lambda v, r: srp_post(v["self"]["state"], v["_new"]["self"]["state"]), cases=[COAST], assume_pre=["force.derivative"], stub=False, tol=1e-6)


# ----------------------------------------------------------- propagation to an epoch
def traj_args(s, epoch):
    st = s["state"]
    return [st["epoch"], *st["position"], *st["velocity"], s["m_dot"], s["m0"], *s["thrust_direction"], s["isp"], epoch]


def traj(s, epoch):
    """opaque state reached by n equal RK4 steps, n = ceil(|dt|/300)"""
    t = 1 if s["state"]["use_perturbations"] is True else 0
    return [uf(f"traj{t}.{c}", *traj_args(s, epoch)) for c in TRAJ]


def traj_num(t, i):
    def f(*a):
        key = (t,) + a
        if key not in TMEMO:
            if len(TMEMO) > 500:
                TMEMO.clear()
            saved, tm.HOOKS.ctx = tm.HOOKS.ctx, None
            try:
                k = lambda x: tm.const(Fraction(*mp_ratio(x)))
                s = {"state": gcrf(k(a[0]), [k(x) for x in a[1:4]], [k(x) for x in a[4:7]], pert=bool(t)), "m_dot": k(a[7]), "m0": k(a[8]), "thrust_direction": [k(x) for x in a[9:12]], "isp": k(a[12])}
                dt = (a[13] - a[0]) * DAY
                n = int(mp.ceil(abs(dt / MAXSTEP)))
                if n > 12:
                    TMEMO[key] = [tm.NAN] * 6
                else:
                    for _ in range(n):
                        s = rk_step(s, k(dt / n))
                        s = vmapn(s)
                    TMEMO[key] = [x.num() for x in s["state"]["position"] + s["state"]["velocity"]]
            finally:
                tm.HOOKS.ctx = saved
        return TMEMO[key][i]

    return f


def vmapn(v):
    from dv.engine import vmap
    return vmap(lambda x: tm.const(Fraction(*mp_ratio(x.num()))) if isinstance(x, T) else x, v)


for t_ in (0, 1):
    for i_, c_ in enumerate(TRAJ):
        tm.UF_IMPL[f"traj{t_}.{c_}"] = traj_num(t_, i_)


def moved(s, epoch, check=False):
    """propagator after step_to_epoch"""
    st = s["state"]
    x = [ANY] * 6 if check else traj(s, epoch)
    dt = (epoch - st["epoch"]) * DAY
    new = {**gcrf(epoch, x[:3], x[3:], pert=st["use_perturbations"]), "thrust": ANY if check else [thrust_left(dt, x) for x in st["thrust"]]}
    if check:
        new["vector"] = ANY
    return {**s, "state": new, "m0": s["m0"] - s["m_dot"] * dt}


def thrust_left(dt, x):
    """no thrust remains on the state after stepping (a state already there is left alone)"""
    return uf("thrust.left", dt, x)


tm.UF_IMPL["thrust.left"] = lambda dt, x: x if dt == 0 else mp.mpf(0)


def loop_watch(v, p):
    """records the steps taken on this path"""
    p.steps = []

    def hook(c, view, objs):
        if c.id == "rk4.step":
            p.steps.append((view["self"], objs["self"]))

    return hook


def steps_post(v, r):
    if v.get("_concrete"):
        return []
    s, p, new = v["self"], v["_path"], v["_new"]["self"]
    dt = (v["epoch"] - s["state"]["epoch"]) * DAY
    out = []
    for w, o in p.steps:
        h = w["step_size"]
        out += [("equal steps forward", imp(ge(dt, 0), eq(h * nsteps(dt), dt))), ("equal steps backward", imp(le(dt, 0), eq(h * nsteps(-dt), dt))), ("no step beyond the maximum", land(le(-MAXSTEP, h), le(h, MAXSTEP)))]
    if p.steps:
        last = step_opaque(p.steps[-1][0])
        out += [("the state is what the step left", veq(new["state"]["vector"], last["state"]["vector"])), ("no thrust remains on the state", veq(new["state"]["thrust"], [ZERO] * 3))]
    else:
        out += [("nothing to do", eq(dt, 0)), ("state untouched", veq(new["state"]["vector"] + new["state"]["thrust"], s["state"]["vector"] + s["state"]["thrust"]))]
    return out


def nsteps(dt):
    """ceil(dt / 300)"""
    return -floor(-div(dt, lift(MAXSTEP)))


TARGET = EpochTy()


def orbiting(r, s):
    """keeps sampled states from plunging into the Earth, where the flow amplifies every rounding"""
    x, w = s["position"], s["velocity"]
    m2 = sum(a * a for a in x)
    k = sum(a * b for a, b in zip(x, w)) / m2
    w = [b - 0.8 * k * a for a, b in zip(x, w)]
    n = math.sqrt(sum(b * b for b in w))
    if n > 0 and m2 > 0:
        f = r.uniform(0.9, 1.3) * math.sqrt(398600.4418 / math.sqrt(m2)) / n
        s["velocity"] = [b * f for b in w]
    s["vector"] = list(s["position"]) + list(s["velocity"])


def to_gen(r, v):
    orbiting(r, v["self"]["state"])
    s = v["self"]["state"]
    v["epoch"] = s["epoch"] + r.choice([0.0, r.uniform(-1, 1) * 0.02, r.uniform(-1, 1) * 0.003, 300 / 86400, -600 / 86400])


def burn_until(s, epoch):
    dt = (epoch - s["state"]["epoch"]) * DAY
    return burning(s, ZERO) + burning(s, dt)


Rc("step_to_epoch", "RK4.step_to_epoch", [("self", RK), ("epoch", TARGET)], None, None, requires=lambda v: burn_until(v["self"], v["epoch"]), cases=[COAST, BURN], gen=to_gen,
   modifies={"self": lambda v: moved(v["self"], v["epoch"], v.get("_check"))}, on_call=loop_watch, post=steps_post, assume_pre=["force.derivative"], tol=1e-6, mptol=1e-10,
   note="the trajectory between the end points is an opaque function of the inputs; each iteration is proved to be one RK4 step of the same size")


# ------------------------------------------------------------------- maneuvers
def burn_time(dv, m_dot, m0, isp):
    """rocket equation"""
    return div(m0, m_dot) * (1 - exp(-div(mag(dv), isp * G0)))


def burned(s, dv, m_dot, m0, isp):
    """propagator after a finite burn"""
    b = {**s, "thrust_direction": list(dv), "m0": m0, "m_dot": m_dot, "isp": isp}
    new = moved(b, s["state"]["epoch"] + burn_time(dv, m_dot, m0, isp) / DAY)
    return {**new, "m0": ZERO, "m_dot": ZERO}


DV = Vec(3, -0.2, 0.2)
BURNP = [("self", RK), ("gcrf_thrust", DV), ("m_dot", Real(0.001, 0.5, ())), ("m0", Real(200, 900)), ("isp", Real(100, 400))]
BURNOK = lambda v: [nonzero(v["gcrf_thrust"]), lt(ZERO, v["m_dot"]), lt(ZERO, v["m0"]), lt(ZERO, v["isp"])]


def mass_post(v, r):
    dt = burn_time(v["gcrf_thrust"], v["m_dot"], v["m0"], v["isp"])
    return [("propellant left over is the rocket equation's", eq(v["m0"] - v["m_dot"] * dt, v["m0"] * exp(-div(mag(v["gcrf_thrust"]), v["isp"] * G0))))]


def burn_gen(r, v):
    orbiting(r, v["self"]["state"])
    # the oracle integrates at most a dozen sub-steps
    import math as m
    d = m.sqrt(sum(x * x for x in v["gcrf_thrust"]))
    t = v["m0"] / v["m_dot"] * (1 - m.exp(-d / (v["isp"] * 0.00981)))
    if t > 2500:
        v["m_dot"] = v["m_dot"] * t / r.uniform(200, 2500)


Rc("maneuver", "RK4.maneuver", BURNP, None, None, requires=BURNOK, modifies={"self": lambda v: burned(v["self"], v["gcrf_thrust"], v["m_dot"], v["m0"], v["isp"])}, post=mass_post, gen=burn_gen, tol=1e-6, mptol=1e-10)
