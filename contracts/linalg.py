"""Contracts of openspace.math.linalg."""
import math
from dv.engine import Contract
from dv.tys import *
from dv.spec import *
from dv.terms import fresh

P = "openspace.math.linalg:"


def C(id, target, params, result, spec, **k):
    return Contract("linalg." + id, P + target, params, result, spec, **k)


R = Real()

# constructors (not stubbed: construction is what the constructor does)
for n, ty, cls in ((3, V3, "Vector3D"), (6, V6, "Vector6D")):
    ps = [(a, R) for a in ty.attrs]
    C(cls, cls, ps, ty, lambda v, a=ty.attrs: [v[x] for x in a], stub=False)
for ty in (M33, M36, M63, M66):
    nm = ty.cls.split(":")[1]
    ps = [(f"r{i + 1}", ty.row) for i in range(ty.r)]
    C(nm, nm, ps, ty, lambda v, r=ty.r: [v[f"r{i + 1}"] for i in range(r)], stub=False)

C("Vector6D.from_position_and_velocity", "Vector6D.from_position_and_velocity", [("r", V3), ("v", V3)], V6, lambda v: v["r"] + v["v"])
for ty, cls in ((V3, "Vector3D"), (V6, "Vector6D")):
    S = [("self", ty)]
    SB = [("self", ty), ("b", ty)]
    al = [{"name": ""}, {"name": "same object", "alias": [("b", "self")], "requires": lambda v: [eq(x, y) for x, y in zip(v["self"], v["b"])],
                          "gen": lambda r, v: v.__setitem__("b", list(v["self"]))}]
    C(cls + ".dot", cls + ".dot", SB, R, lambda v: dot(v["self"], v["b"]), cases=al)
    C(cls + ".copy", cls + ".copy", S, ty, lambda v: list(v["self"]))
    C(cls + ".plus", cls + ".plus", SB, ty, lambda v: add(v["self"], v["b"]), cases=al)
    C(cls + ".minus", cls + ".minus", SB, ty, lambda v: sub(v["self"], v["b"]), cases=al)

S = [("self", V3)]
SB = [("self", V3), ("b", V3)]
C("Vector3D.cross", "Vector3D.cross", SB, V3, lambda v: cross(v["self"], v["b"]))
C("Vector3D.magnitude", "Vector3D.magnitude", S, R, lambda v: mag(v["self"]), float_safe=("sqrt",))
C("Vector3D.scaled", "Vector3D.scaled", [("self", V3), ("k", R)], V3, lambda v: scale(v["self"], v["k"]))
C("Vector3D.normalized", "Vector3D.normalized", S, V3, lambda v: unit(v["self"]), requires=lambda v: [nonzero(v["self"])],
  post=lambda v, r: [("unit length", eq(norm2(r), 1)), ("parallel", veq(scale(r, mag(v["self"])), v["self"]))])


def noise_mag(v):
    m = mag(v["self"])
    k = m + v["e"] * v["_draw"]("gauss")
    return scale(unit(v["self"]), k)


C("Vector3D.with_magnitude_noise", "Vector3D.with_magnitude_noise", [("self", V3), ("e", Real(0, 1))], V3, noise_mag, requires=lambda v: [nonzero(v["self"])],
  post=lambda v, r: [("direction kept", veq(cross(r, v["self"]), [ZERO] * 3))])


def noise_ang(v):
    a = v["self"]
    g = v["e"] * v["_draw"]("gauss")
    u = 2 * PI * v["_draw"]("unit")
    ax = [a[1], -a[0], ZERO]
    if (a[0] * a[0] + a[1] * a[1]) == 0:
        ax = [ONE, ZERO, ZERO]
    k = unit(ax)
    return rodrigues(unit(a), u, rodrigues(k, g, a))


C("Vector3D.with_angular_noise", "Vector3D.with_angular_noise", [("self", V3), ("e", Real(0, 1))], V3, noise_ang, requires=lambda v: [nonzero(v["self"])],
  post=lambda v, r: [("length kept", eq(norm2(r), norm2(v["self"])))], timeout=40)


def noise(v):
    x = noise_mag(v | {"e": v["r"]})
    return noise_ang(v | {"self": x, "e": v["a"]})


def noisy(v):
    """what a caller may rely on: some vector whose length is the noisy range"""
    g = v["_draw"]("gauss")
    x = [fresh("noisy") for _ in range(3)]
    return x, [eq(norm2(x), power(mag(v["self"]) + v["r"] * g, 2))]


C("Vector3D.with_noise", "Vector3D.with_noise", [("self", V3), ("r", Real(0, 0.05)), ("a", Real(0, 1))], V3, None, requires=lambda v: [nonzero(v["self"])],
  post=lambda v, r: [("length is the noisy range", eq(norm2(r), power(mag(v["self"]) + v["r"] * v["_draw"]("gauss"), 2)))], opaque=noisy,
  on_draw=lambda v, kind, t, i: [ne(mag(v["self"]) + v["r"] * t, 0)] if kind == "gauss" and i == 0 else [],
  note="assumes the drawn range is not exactly zero")

CL = [{"name": ""}]


def angle_spec(v):
    a, b = v["self"], v["b"]
    return acos(div(dot(a, b), mag(a) * mag(b)))


def angle_gen(r, v):
    if r.random() < 0.5:
        sg = r.choice([-1, 1])
        for _ in range(60):  # preferably a pair whose rounded cosine leaves [-1, 1]
            a = [r.gauss(0, 1000) for _ in range(3)]
            k = sg * math.exp(r.uniform(-3, 3))
            b = [x * k for x in a]
            q = sum(x * y for x, y in zip(a, b)) / (math.sqrt(sum(x * x for x in a)) * math.sqrt(sum(x * x for x in b)))
            if abs(q) > 1:
                break
        v["self"], v["b"] = a, b


C("Vector3D.angle", "Vector3D.angle", SB, R, angle_spec, gen=angle_gen, quick=40, scale=1, requires=lambda v: [nonzero(v["self"]), nonzero(v["b"])], float_safe=("acos",),
  post=lambda v, r: [("range", land(le(ZERO, r), le(r, PI)))])


def rotm(v):
    k = unit(v["axis"])
    return tr([rodrigues(k, v["theta"], e) for e in ident(3)])


C("Vector3D.rotation_matrix", "Vector3D.rotation_matrix", [("axis", V3), ("theta", ANG)], M33, rotm, requires=lambda v: [nonzero(v["axis"])])


def rot(v):
    return rodrigues(unit(v["axis"]), v["theta"], v["self"])


C("Vector3D.rotation_about_axis", "Vector3D.rotation_about_axis", [("self", V3), ("axis", V3), ("theta", ANG)], V3, rot, requires=lambda v: [nonzero(v["axis"])],
  post=lambda v, r: [("length", eq(norm2(r), norm2(v["self"]))), ("axis component", eq(dot(r, v["axis"]), dot(v["self"], v["axis"])))])


def call_undo(ns, o):
    a = o["axis"]
    return o["self"].rotation_about_axis(a, o["theta"]).rotation_about_axis(a, -o["theta"])


C("lemma.rotation_undone", "Vector3D.rotation_about_axis", [("self", V3), ("axis", V3), ("theta", ANG)], V3, lambda v: v["self"], requires=lambda v: [nonzero(v["axis"])], call=call_undo, stub=False)


# matrices
def cols(m, i):
    return [r[i] for r in m]


for ty in (M33, M36, M63, M66):
    nm = ty.cls.split(":")[1]
    TT = Mat(ty.c, ty.r)
    S = [("self", ty)]
    colty = V3 if ty.r == 3 else V6
    for i in range(ty.c):
        C(f"{nm}.column_{i + 1}", f"{nm}.column_{i + 1}", S, colty, lambda v, i=i: cols(v["self"], i))
    C(f"{nm}.transpose", f"{nm}.transpose", S, TT, lambda v: tr(v["self"]))
    if (ty.r, ty.c) != (3, 6):
        C(f"{nm}.multiply_vector", f"{nm}.multiply_vector", [("self", ty), ("x", ty.row)], colty, lambda v: mv(v["self"], v["x"]))
    else:
        C(f"{nm}.multiply_vector", f"{nm}.multiply_vector", [("self", ty), ("x", V6)], V3, lambda v: mv(v["self"], v["x"]))


def MMUL(nm, meth, a, b):
    C(f"{nm}.{meth}", f"{nm}.{meth}", [("self", a), ("m", b)], Mat(a.r, b.c), lambda v: mm(v["self"], v["m"]))


MMUL("Matrix3D", "multiply_matrix3by6", M33, M36)
MMUL("Matrix3by6", "multiply_matrix_6by3", M36, M63)
MMUL("Matrix6by3", "multiply", M63, M33)
MMUL("Matrix6by3", "multiply_matrix3by6", M63, M36)
MMUL("Matrix6D", "multiply_matrix_6by3", M66, M63)
MMUL("Matrix6D", "multiply_matrix", M66, M66)
C("Matrix3D.diagonal", "Matrix3D.diagonal", [("self", M33)], V3, lambda v: [v["self"][i][i] for i in range(3)])
C("Matrix6D.diagonal", "Matrix6D.diagonal", [("self", M66)], V6, lambda v: [v["self"][i][i] for i in range(6)])
C("Matrix3D.scaled", "Matrix3D.scaled", [("self", M33), ("k", R)], M33, lambda v: mscale(v["self"], v["k"]))
C("Matrix3D.plus", "Matrix3D.plus", [("self", M33), ("m", M33)], M33, lambda v: madd(v["self"], v["m"]))
C("Matrix6D.plus", "Matrix6D.plus", [("self", M66), ("m", M66)], M66, lambda v: madd(v["self"], v["m"]))
C("Matrix6D.minus", "Matrix6D.minus", [("self", M66), ("m", M66)], M66, lambda v: msub(v["self"], v["m"]))
C("Matrix6D.identity", "Matrix6D.identity", [], M66, lambda v: ident(6))
C("Matrix3D.determinant", "Matrix3D.determinant", [("self", M33)], R, lambda v: det3(v["self"]))
C("Matrix3D.cofactor", "Matrix3D.cofactor", [("self", M33)], M33, lambda v: cof3(v["self"]))
C("Matrix3D.adjugate", "Matrix3D.adjugate", [("self", M33)], M33, lambda v: adj3(v["self"]))


def inv_post(v, r):
    a = v["self"]
    return [("left inverse", land([veq(x, y) for x, y in zip(mm(r, a), ident(3))])), ("right inverse", land([veq(x, y) for x, y in zip(mm(a, r), ident(3))]))]


C("Matrix3D.inverse", "Matrix3D.inverse", [("self", M33)], M33, lambda v: inv3(v["self"]), requires=lambda v: [ne(det3(v["self"]), 0)], post=inv_post)
