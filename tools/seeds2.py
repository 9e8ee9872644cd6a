import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from seed import make
only = sys.argv[1:]


def mk(id, *a):
    if not only or any(o in id for o in only):
        make(id, *a)


mk("s07_adjugate_not_transposed", "C01", [("math/linalg.py", "return self.cofactor().transpose()", "return self.cofactor()")],
"""from openspace.math.linalg import Matrix3D, Vector3D
m = Matrix3D(Vector3D(2, 1, 0.5), Vector3D(0.25, 3, -1), Vector3D(1, 4, 5))
i = m.inverse()
p = [[r.dot(c) for c in (i.column_1(), i.column_2(), i.column_3())] for r in (m.row1, m.row2, m.row3)]
for a in range(3):
    for b in range(3):
        assert abs(p[a][b] - (a == b)) < 1e-12, p
""", "inverting a matrix that is not symmetric (the filter only inverts symmetric ones)", "the inverse of an asymmetric 3x3 matrix is the transposed inverse")
mk("s08_nearly_unit_axis", "C02", [("math/linalg.py", "unit_ax: Vector3D = axis.normalized()", "unit_ax: Vector3D = axis if abs(axis.magnitude() - 1) < 1e-2 else axis.normalized()")],
"""from openspace.math.linalg import Vector3D
for k in (0.5, 0.995, 1.0, 1.004, 2.0):
    v = Vector3D(1, 2, 3)
    w = v.rotation_about_axis(Vector3D(0.6, 0, 0.8).scaled(k), 1.3)
    assert abs(w.magnitude() - v.magnitude()) < 1e-12, (k, w.magnitude(), v.magnitude())
""", "an axis whose length is close to, but not, one", "rotations about nearly-unit axes stretch vectors")
mk("s09_state_shares_epoch", "C03", [("coordinates/states.py", "self.epoch: Epoch = epoch.copy()", "self.epoch: Epoch = epoch")],
"""from openspace.coordinates.states import IJK
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
e = Epoch(50000.0)
s = IJK(e, Vector3D(7000, 0, 0), Vector3D(0, 7, 0))
e.value += 1
assert s.epoch.value == 50000.0, s.epoch.value
""", "reusing and changing the epoch object a state was built with", "a state's epoch is the caller's object: changing one changes the other")
mk("s10_precession_cubic", "C06", [("bodies/celestial.py", "y: float = a * t - b * t * t - c * t * t * t", "y: float = a * t - b * t * t + c * t * t * t")],
"""from math import asin, pi
from openspace.bodies.celestial import Earth
from openspace.time import Epoch
AS = pi / 180 / 3600
for t in (-2.0, -0.5, 0.1, 1.0, 3.0):
    got = -asin(Earth.precession(Epoch(51544.5 + 36525 * t)).row3.y / __import__('math').sin((2306.2181 * t + 0.30188 * t * t + 0.017998 * t ** 3) * AS)) 
    want = (2004.3109 * t - 0.42665 * t * t - 0.041833 * t ** 3) * AS
    assert abs(got - want) < 1e-9, (t, got, want)
""", "an epoch decades away from J2000", "the cubic precession term has the wrong sign")
mk("s11_lla_south_altitude", "C07", [("coordinates/positions.py", "h: float = rho * cos(lamb) + z * sin(lamb) - a2 / n", "h: float = rho * cos(lamb) + abs(z) * sin(lamb) - a2 / n")],
"""from openspace.coordinates.positions import PositionConvert
from openspace.math.linalg import Vector3D
for p in (Vector3D(4000, 3000, 4500), Vector3D(4000, 3000, -4500)):
    q = PositionConvert.lla.to_itrf(PositionConvert.itrf.to_lla(p))
    assert q.minus(p).magnitude() < 1e-5, (str(p), str(q))
""", "a position in the southern hemisphere", "altitudes south of the equator are wrong by thousands of kilometres")
mk("s12_south_enz", "C08", [("coordinates/positions.py", "Vector3D(-spsi * clamb, -spsi * slamb, cpsi)", "Vector3D(-abs(spsi) * clamb, -abs(spsi) * slamb, cpsi)")],
"""from openspace.coordinates.positions import ENZ
for lon in (0.4, 4.0):
    for lat in (0.5, -0.5):
        m = ENZ.matrix(lon, lat)
        assert abs(m.row2.dot(m.row3)) < 1e-12, (lon, lat)
        assert m.row1.cross(m.row2).minus(m.row3).magnitude() < 1e-12
""", "a site south of the equator", "the north axis of southern sites is not horizontal")
mk("s13_elements_cross_term", "C11", [("coordinates/elements.py", "y_bar_dot: float = b * ea_dot * cea", "y_bar_dot: float = b * ea_dot * abs(cea)")],
"""from openspace.coordinates.elements import ClassicalElements
from openspace.time import Epoch
from math import sqrt
for ma in (0.3, 1.4, 2.8, 4.0, 6.0):
    s = ClassicalElements(Epoch(51544.5), 9000.0, 0.2, 0.7, 1.0, 2.0, ma).to_ijk()
    h = s.position.cross(s.velocity).magnitude()
    assert abs(h - sqrt(398600.4418 * 9000 * (1 - 0.04))) < 1e-6, (ma, h)
""", "an object in the apogee half of its orbit (eccentric anomaly between 90 and 270 degrees)", "velocities near apogee point the wrong way along the minor axis")
mk("s14_moon_latitude_term", "C12", [("bodies/celestial.py", "- a6 * sin(-2.0 * l + f)", "- a6 * sin(2.0 * l + f)")],
"""from math import asin, sin, cos, radians, pi
from openspace.bodies.celestial import Moon, Earth
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
AS = pi / 180 / 3600
def beta(mjd):
    t = (mjd - 51544.5) / 36525
    l0 = radians(218.31617 + 481267.88088 * t - 1.3972 * t); l = radians(134.96292 + 477198.86753 * t); lp = radians(357.52543 + 35999.04944 * t)
    f = radians(93.27283 + 483202.01873 * t); d = radians(297.85027 + 445267.11135 * t)
    lam = l0 + AS * (22640 * sin(l) + 769 * sin(2 * l) - 4586 * sin(l - 2 * d) + 2370 * sin(2 * d) - 668 * sin(lp) - 412 * sin(2 * f) - 212 * sin(2 * l - 2 * d) - 206 * sin(l + lp - 2 * d) + 192 * sin(l + 2 * d) - 165 * sin(lp - 2 * d) + 148 * sin(l - lp) - 125 * sin(d) - 110 * sin(l + lp) - 55 * sin(2 * f - 2 * d))
    return AS * (18520 * sin(f + lam - l0 + AS * (412 * sin(2 * f) + 541 * sin(lp))) - 526 * sin(f - 2 * d) + 44 * sin(l + f - 2 * d) - 31 * sin(-l + f - 2 * d) - 25 * sin(-2 * l + f) - 23 * sin(lp + f - 2 * d) + 21 * sin(-l + f) + 11 * sin(-lp + f - 2 * d))
for k in range(40):
    mjd = 50000.0 + 123.4 * k
    p = Moon.get_position(Epoch(mjd)).rotation_about_axis(Vector3D(1, 0, 0), -Earth.OBLIQUITY_OF_ECLIPTIC)
    assert abs(asin(p.z / p.magnitude()) - beta(mjd)) < 1e-8, (mjd, asin(p.z / p.magnitude()), beta(mjd))
""", "any epoch, at the level of 25 arcseconds", "one lunar latitude term has the wrong argument")
mk("s15_south_tesseral", "C13", [("coordinates/states.py", "(p[n][m + 1] - m * tan(sphr_pos.declination) * p[n][m])", "(p[n][m + 1] - m * tan(abs(sphr_pos.declination)) * p[n][m])")],
"""from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
# the perturbing acceleration is a gradient: its Jacobian is symmetric
e = Epoch(55000.25)
def acc(r):
    a = GCRF(e, Vector3D(*r), Vector3D(0, 7, 0)).acceleration_from_gravity()
    return (a.x, a.y, a.z)
h = 2.0
for r0 in ((5200.0, 4100.0, 2300.0), (5200.0, 4100.0, -2300.0)):
    J = []
    for k in range(3):
        p = list(r0); q = list(r0)
        p[k] += h; q[k] -= h
        J.append([(a - b) / (2 * h) for a, b in zip(acc(p), acc(q))])
    for i in range(3):
        for j in range(i):
            assert abs(J[i][j] - J[j][i]) < 2e-11, (r0, i, j, J[i][j], J[j][i])
""", "a position south of the equator", "the north-south tesseral force is wrong in the southern hemisphere")
mk("s16_backward_steps", "C14", [("propagators/inertial.py", "num_steps = ceil(abs(dt / self.MAX_STEP))", "num_steps = abs(ceil(dt / self.MAX_STEP))")],
"""from openspace.coordinates.states import GCRF
from openspace.propagators.inertial import RK4
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
for dt in (100.0, 700.0, -100.0, -700.0):
    p = RK4(GCRF(Epoch(51544.5), Vector3D(42164, 10, 20), Vector3D(0, 3.07, 0.1)))
    want = 51544.5 + dt / 86400
    p.step_to_epoch(Epoch(want))
    assert abs(p.state.epoch.value - want) < 1e-9, (dt, p.state.epoch.value, want)
""", "propagating backwards by a time that is not a multiple of the maximum step", "short backward propagations do nothing and longer ones use sub-steps above the maximum")
mk("s17_thrust_mass_growth", "C15", [("propagators/inertial.py", "mt = self.m0 - self.m_dot * dt\n", "mt = self.m0 + self.m_dot * dt\n")],
"""from openspace.coordinates.states import GCRF
from openspace.propagators.inertial import RK4
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
p = RK4(GCRF(Epoch(51544.5), Vector3D(42164, 10, 20), Vector3D(0, 3.07, 0.1)))
p.thrust_direction, p.m_dot, p.m0, p.isp = Vector3D(0, 2, 0), 0.5, 800.0, 300.0
a0, a1 = p.thrust_vector(0).magnitude(), p.thrust_vector(200).magnitude()
assert abs(a1 / a0 - 800.0 / 700.0) < 1e-9, (a0, a1)
""", "a finite burn evaluated after its start", "thrust acceleration falls during a burn instead of rising with the shrinking mass")
mk("s18_hill_radial_rate", "C16", [("coordinates/states.py", "rdotint: float = state.velocity.x + vtgtrsw.x", "rdotint: float = state.velocity.x"), ("coordinates/states.py", "            vintsez.z - vtgtrsw.x,\n", "            vintsez.z,\n")],
"""from openspace.coordinates.states import GCRF, StateConvert
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
o = GCRF(Epoch(51544.5), Vector3D(7000, 100, 300), Vector3D(1.0, 7.0, 2.0))
z = StateConvert.gcrf.to_hcw(o, o)
assert z.velocity.magnitude() < 1e-9 and z.position.magnitude() < 1e-6, (str(z.position), str(z.velocity))
""", "an origin orbit with radial velocity (both directions of the conversion agree with each other)", "relative radial rates ignore the origin's own radial rate: the origin is not at rest in its own frame")
mk("s19_cw_secular", "C17", [("propagators/relative.py", "6 * (sn - n * t),", "6 * (sn - n * abs(t)),")],
"""from openspace.coordinates.states import HCW
from openspace.propagators.relative import Hill
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
h = Hill(HCW(Epoch(0), Vector3D(1, 2, 3), Vector3D(0.001, 0.002, 0)), 42164)
h.step_by_seconds(900)
h.step_by_seconds(-900)
assert h.state.position.minus(Vector3D(1, 2, 3)).magnitude() < 1e-9, str(h.state.position)
""", "a backward relative step of a state with radial offset", "stepping back does not undo stepping forward")
mk("s20_joseph_shortcut", "C18", [("estimation/filtering.py", "self.p00 = m1.multiply_matrix(self.p10.multiply_matrix(m1.transpose())).plus(m2)", "self.p00 = m1.multiply_matrix(self.p10).plus(m2)")],
"""from openspace.coordinates.states import HCW
from openspace.estimation.filtering import RelativeKalman
from openspace.propagators.relative import Hill
from openspace.math.linalg import Vector3D, Matrix3D
from openspace.time import Epoch
k = RelativeKalman(Epoch(51544.5), Hill(HCW(Epoch(51544.5), Vector3D(1, 2, 3), Vector3D(0, 0, 0)), 42164))
k.predict(600)
k.r = Matrix3D(Vector3D(0.01, 0, 0), Vector3D(0, 0.04, 0), Vector3D(0, 0, 0.09))
k.z = Vector3D(1.1, 2.1, 3.1)
k.update()
p, q = k.p00, k.p00.transpose()
# for the optimal gain the Joseph form equals (I - K H) P
m = k.I.minus(k.k.multiply_matrix3by6(k.H)).multiply_matrix(k.p10)
for a, b in zip((p.row1, p.row2, p.row3, p.row4, p.row5, p.row6), (m.row1, m.row2, m.row3, m.row4, m.row5, m.row6)):
    d = a.minus(b)
    assert max(abs(x) for x in (d.x, d.y, d.z, d.vx, d.vy, d.vz)) < 1e-9, (str(a), str(b))
""", "any filter update", "the covariance keeps an extra K R K' term")
mk("s21_gauss_perigee_quadrant", "C19", [("estimation/iod.py", "e_anom: float = atan2(sqrt(1 - e * e) * sin(ta), cos(ta) + e)", "e_anom: float = atan2(sqrt(1 - e * e) * abs(sin(ta)), cos(ta) + e)")],
"""from math import pi, radians
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.states import GCRF
from openspace.estimation.iod import Gauss
from openspace.time import Epoch

class Ob:
    def __init__(s, st): s.st = st
    def epoch(s): return s.st.epoch
    def ijk_position(s): return s.st.position

for ma in (0.5, 2.0, 3.5, 5.0):
    a, dt = 9000.0, 600 / 86400
    n = (398600.4418 / a ** 3) ** 0.5 * 86400
    o = [Ob(ClassicalElements(Epoch(51544.5 + t), a, 0.15, 1.1, 0.4, 0.9, (ma + n * t) % (2 * pi)).to_ijk()) for t in (0.0, dt)]
    c = Gauss.coes_from_positions(*o)
    assert c.to_ijk().position.minus(o[0].st.position).magnitude() < 1e-3, (ma, str(c.to_ijk().position), str(o[0].st.position))
""", "a first observation after apogee (true anomaly above 180 degrees)", "the mean anomaly is mirrored: the orbit places the object at the wrong point at the first epoch")
mk("s22_sun_pointing_handedness", "C20", [("bodies/artificial.py", "self.body_y = self.body_z.cross(self.body_x)\n\n        elif self.steering == Spacecraft.STEERING_MODES[2]", "self.body_y = self.body_x.cross(self.body_z)\n\n        elif self.steering == Spacecraft.STEERING_MODES[2]")],
"""from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
s = Spacecraft(GCRF(Epoch(51544.5), Vector3D(42164, 10, 20), Vector3D(0, 3.07, 0.1)))
s.track_sun()
assert s.body_x.cross(s.body_y).dot(s.body_z) > 0
""", "solar steering", "the body axes are left-handed when Sun-pointing")
mk("s23_detect_moon_uses_earth_limit", "C21", [("bodies/artificial.py", "elif self.moon_angle(target) < self.wfov.limits.moon:", "elif self.moon_angle(target) < self.nfov.limits.moon:")],
"""from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
def craft(p): return Spacecraft(GCRF(Epoch(51544.5), p, Vector3D(0, 3.07, 0.1)))
o = craft(Vector3D(42164, 10, 20))
away = o.sun_vector().normalized().scaled(-30)
side = away.cross(Vector3D(0, 0, 1)).normalized().scaled(5)
t = craft(o.position().plus(away).plus(side))
o.body_z = o.target_vector(t)
o.wfov.limits.earth = 0.0
base = o.moon_angle(t)
o.wfov.limits.moon = base - 0.01
assert o.detect(t), "should be detected"
o.wfov.limits.moon = base + 0.01
assert not o.detect(t), "Moon limit of the wide-field sensor not applied"
""", "wide-field and narrow-field sensors with different Moon limits", "detection applies the narrow-field sensor's Moon limit")
