"""Mathematical vocabulary for the specifications (works on views: nested lists of terms)."""
from .terms import (T, lift, const, sin, cos, tan, asin, acos, atan2, sqrt, exp, log, floor, wrap, PI, ZERO, ONE, uf, div, power, rdiv, var, E, HOOKS)
from .prove import eq, ne, le, lt, ge, gt, land, lor, imp, negate
from fractions import Fraction

Q = lambda s: const(Fraction(str(s)))  # exact decimal


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def scale(a, k):
    return [lift(x) * k for x in a]


def dot(a, b):
    t = ZERO
    for x, y in zip(a, b):
        t = t + lift(x) * y
    return t


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm2(a):
    return dot(a, a)


def mag(a):
    return sqrt(norm2(a))


def unit(a):
    return [div(lift(x), mag(a)) for x in a]


def mv(m, x):
    return [dot(r, x) for r in m]


def mm(a, b):
    bt = tr(b)
    return [[dot(r, c) for c in bt] for r in a]


def tr(m):
    return [list(r) for r in zip(*m)]


def madd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def msub(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def mscale(a, k):
    return [scale(r, k) for r in a]


def ident(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


def cof3(m):
    return [cross(m[1], m[2]), cross(m[2], m[0]), cross(m[0], m[1])]


def adj3(m):
    return tr(cof3(m))


def inv3(m):
    d = det3(m)
    return [[div(x, d) for x in r] for r in adj3(m)]


def rodrigues(k, th, x):
    """rotation of x about unit axis k by th"""
    c, s = cos(th), sin(th)
    kd = dot(k, x)
    kx = cross(k, x)
    return [x[i] * c + kx[i] * s + k[i] * kd * (1 - c) for i in range(3)]


def nonzero(v):
    return lt(ZERO, norm2(v))


def veq(a, b):
    return land([eq(x, y) for x, y in zip(a, b)])
