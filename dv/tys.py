"""Value descriptors used by the contracts: symbolic leaves <-> real objects <-> views.

A *view* is a nested list/dict of numbers (symbolic terms while proving, mpf / float while
replaying).  Objects are always built with the repository's own constructors."""
import math
from fractions import Fraction
import mpmath as mp
from .terms import T, B, var, lift, ZERO
from .engine import Ty

LA = "openspace.math.linalg:"


def num(o):
    """a number, or TypeError"""
    if isinstance(o, bool) or not isinstance(o, (T, int, float, mp.mpf)):
        raise TypeError(f"not a number: {o!r}")
    return o


class Choice:
    """a leaf enumerated by case analysis"""

    def __init__(s, name, options):
        s.name, s.options = name, options


class Real(Ty):
    def __init__(s, lo=-10.0, hi=10.0, special=(0.0, 1.0, -1.0), p=0.12, log=False, sort="real"):
        s.lo, s.hi, s.special, s.p, s.log, s.sort = lo, hi, [x for x in special if lo <= x <= hi], p, log, sort

    def fresh(s, p):
        return var(p, s.sort)

    def build(s, ns, v):
        return v

    def view(s, o):
        return num(o)

    def sample(s, r):
        if s.special and r.random() < s.p:
            return float(r.choice(s.special))
        if s.log:
            return math.exp(r.uniform(math.log(s.lo), math.log(s.hi)))
        return r.uniform(s.lo, s.hi)


class Int(Real):
    def __init__(s, lo, hi):
        super().__init__(lo, hi, (), sort="int")

    def sample(s, r):
        return r.randint(s.lo, s.hi)

    def check(s, ns, o):
        return None


class Enum(Ty):
    def __init__(s, *options):
        s.options = list(options)

    def fresh(s, p):
        return Choice(p, s.options) if len(s.options) > 1 else s.options[0]

    def build(s, ns, v):
        return v

    def view(s, o):
        return o

    def sample(s, r):
        return r.choice(s.options)


BOOL = Enum(True, False)


class AnyBool(Ty):
    """boolean result"""

    def view(s, o):
        if not isinstance(o, bool):
            raise TypeError("not a bool")
        return o

    def build(s, ns, v):
        return v


ANG = Real(-7.0, 7.0, (0.0, math.pi / 2, math.pi, -math.pi, 2 * math.pi, 1.0))


class Vec(Ty):
    def __init__(s, n=3, lo=-10.0, hi=10.0, elem=None, degenerate=0.25):
        s.n = n
        s.cls = LA + ("Vector3D" if n == 3 else "Vector6D")
        s.attrs = ("x", "y", "z") if n == 3 else ("x", "y", "z", "vx", "vy", "vz")
        s.elem = elem or Real(lo, hi, (0.0, 1.0, -1.0, 2.0), p=0.05)
        s.deg = degenerate

    def fresh(s, p):
        return [s.elem.fresh(f"{p}.{a}") for a in s.attrs]

    def build(s, ns, v):
        return ns.get(s.cls)(*v)

    def view(s, o):
        return [num(getattr(o, a)) for a in s.attrs]

    def sample(s, r):
        v = [s.elem.sample(r) for _ in range(s.n)]
        if r.random() < s.deg:
            keep = r.sample(range(s.n), r.randint(1, s.n - 1))
            v = [x if i in keep else 0.0 for i, x in enumerate(v)]
        return v

    def put(s, ns, o, v):
        for a, x in zip(s.attrs, v):
            setattr(o, a, x)


V3, V6 = Vec(3), Vec(6)


class Mat(Ty):
    """rows x cols matrix of Vector3D/Vector6D rows"""

    NAMES = {(3, 3): "Matrix3D", (3, 6): "Matrix3by6", (6, 3): "Matrix6by3", (6, 6): "Matrix6D"}

    def __init__(s, r, c, elem=None):
        s.r, s.c = r, c
        s.cls = LA + s.NAMES[(r, c)]
        s.row = Vec(c, elem=elem)

    def fresh(s, p):
        return [s.row.fresh(f"{p}.r{i + 1}") for i in range(s.r)]

    def build(s, ns, v):
        return ns.get(s.cls)(*[s.row.build(ns, x) for x in v])

    def view(s, o):
        return [s.row.view(getattr(o, f"row{i + 1}")) for i in range(s.r)]

    def sample(s, r):
        return [s.row.sample(r) for _ in range(s.r)]


M33, M36, M63, M66 = Mat(3, 3), Mat(3, 6), Mat(6, 3), Mat(6, 6)


class Rec(Ty):
    """object with named attributes; built with its constructor (ctor fields in order), then
    the remaining attributes are set"""

    def __init__(s, cls, fields, ctor=None, derived=None, views=None):
        s.cls = cls
        s.fields = fields  # name -> Ty
        s.ctor = ctor if ctor is not None else list(fields)
        s.derived = derived or {}

    def fresh(s, p):
        v = {k: t.fresh(f"{p}.{k}") for k, t in s.fields.items()}
        return s.close(v)

    def close(s, v):
        for k, t in s.fields.items():
            if hasattr(t, "close") and isinstance(v.get(k), dict):
                t.close(v[k])
        for k, f in s.derived.items():
            v[k] = f(v)
        return v

    def build(s, ns, v):
        o = ns.get(s.cls)(*[s.fields[k].build(ns, v[k]) for k in s.ctor])
        for k, t in s.fields.items():
            if k not in s.ctor:
                setattr(o, k, t.build(ns, v[k]))
        return o

    def view(s, o):
        v = {k: t.view(getattr(o, k)) for k, t in s.fields.items()}
        for k in s.derived:
            v[k] = s.derived_ty(k).view(getattr(o, k))
        return v

    def derived_ty(s, k):
        raise KeyError(k)

    def sample(s, r):
        return s.close({k: t.sample(r) for k, t in s.fields.items()})

    def put(s, ns, o, v):
        for k, t in s.fields.items():
            setattr(o, k, t.build(ns, v[k]))


class EpochTy(Ty):
    cls = "openspace.time:Epoch"

    def __init__(s, lo=40000.0, hi=70000.0):
        s.r = Real(lo, hi, (51544.5, 51544.0, 58849.0))

    def fresh(s, p):
        return s.r.fresh(p)

    def build(s, ns, v):
        return ns.get(s.cls)(v)

    def view(s, o):
        return num(o.value)

    def sample(s, r):
        return s.r.sample(r)

    def put(s, ns, o, v):
        o.value = v


EPOCH = EpochTy()


class PosTy(Vec):
    """a position between LEO and beyond GEO"""

    def __init__(s, lo=6600.0, hi=60000.0, degenerate=0.15):
        super().__init__(3)
        s.lo, s.hi, s.deg = lo, hi, degenerate

    def sample(s, r):
        while True:
            v = [r.gauss(0, 1) for _ in range(3)]
            if r.random() < s.deg:
                keep = r.sample(range(3), r.randint(1, 2))
                v = [x if i in keep else 0.0 for i, x in enumerate(v)]
            m = math.sqrt(sum(x * x for x in v))
            if m > 1e-3:
                break
        R = r.uniform(s.lo, s.hi)
        return [x * R / m for x in v]


POS = PosTy()
VEL = Vec(3, -8.0, 8.0, degenerate=0.1)
DIR = Vec(3, -5000.0, 5000.0)

ST = "openspace.coordinates.states:"


class StateTy(Rec):
    def __init__(s, name, pos=POS, vel=VEL, extra=None, epoch=EPOCH):
        f = {"epoch": epoch, "position": pos, "velocity": vel}
        f.update(extra or {})
        super().__init__(ST + name, f, ctor=["epoch", "position", "velocity"], derived={"vector": lambda v: list(v["position"]) + list(v["velocity"])})

    def derived_ty(s, k):
        return V6

    def check(s, ns, o):
        c = ns.get(s.cls)
        if type(o) is not c:
            return f"expected {s.cls}, got {type(o).__name__}"


ZERO3 = Vec(3, 0.0, 0.0)
GCRF = StateTy("GCRF", extra={"thrust": Vec(3, -1e-4, 1e-4), "srp_scalar": Real(0, 0.1), "use_perturbations": BOOL})
HCW = StateTy("HCW", pos=Vec(3, -500.0, 500.0), vel=Vec(3, -0.1, 0.1))
ITRF = StateTy("ITRF", vel=Vec(3, -1.0, 1.0))
IJK = StateTy("IJK")


def gcrf(epoch, r, v, thrust=None, srp=ZERO, pert=True):
    return {"epoch": epoch, "position": list(r), "velocity": list(v), "thrust": thrust or [ZERO, ZERO, ZERO], "srp_scalar": srp,
            "use_perturbations": pert, "vector": list(r) + list(v)}


def state(epoch, r, v):
    return {"epoch": epoch, "position": list(r), "velocity": list(v), "vector": list(r) + list(v)}


class ListOf(Ty):
    def __init__(s, *tys):
        s.tys = tys

    def view(s, o):
        if len(o) != len(s.tys):
            raise TypeError("length")
        return [t.view(x) for t, x in zip(s.tys, o)]

    def build(s, ns, v):
        return [t.build(ns, x) for t, x in zip(s.tys, v)]

    def fresh(s, p):
        return [t.fresh(f"{p}[{i}]") for i, t in enumerate(s.tys)]

    def sample(s, r):
        return [t.sample(r) for t in s.tys]


class Opt(Ty):
    """an attribute that may be absent (declared but unset)"""
