import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from seed import make
make("s01_cross_noise", "C02", [("math/linalg.py", "XX", "YY")], "", "", "") if False else None
make("s02_leap_century", "C04", [("time.py", "b = floor(y / 400) - floor(y / 100) + floor(y / 4)", "b = floor(y / 4) - 15")],
"""from openspace.time import Epoch
a = Epoch.from_gregorian(2100, 2, 28, 0, 0, 0).value
b = Epoch.from_gregorian(2100, 3, 1, 0, 0, 0).value
assert b - a == 1, (a, b)
a = Epoch.from_gregorian(1900, 2, 28, 0, 0, 0).value
b = Epoch.from_gregorian(1900, 3, 1, 0, 0, 0).value
assert b - a == 1, (a, b)
""", "a date before 1900-03-01 or after 2100-02-28", "day counts outside 1900-2100 are off by the missing century leap rules")
make("s03_gha_before_j2000", "C05", [("time.py", "return radians(total_deg % 360)", "while total_deg > 360:\n            total_deg -= 360\n        return radians(total_deg)")],
"""from math import pi
from openspace.time import Epoch
for mjd in (30000.25, 51000.7, 51544.0, 60000.3):
    g = Epoch(mjd).greenwich_hour_angle()
    assert 0 <= g < 2 * pi, (mjd, g)
""", "an epoch whose accumulated sidereal angle is negative (before about the start of 2000)", "the Greenwich hour angle is returned negative for early epochs")
make("s04_kepler_tolerance", "C10", [("math/functions.py", "TOLERANCE: float = 1e-12", "TOLERANCE: float = 1e-4")],
"""from math import sin, pi
from openspace.math.functions import EccentricAnomaly
worst = 0
for k in range(1, 60):
    for e in (0.05, 0.3, 0.6, 0.9):
        m = 2 * pi * k / 60
        E = EccentricAnomaly.from_ma_e(m, e)
        r = (E - e * sin(E) - m + pi) % (2 * pi) - pi
        worst = max(worst, abs(r))
assert worst < 1e-11, worst
""", "an orbit whose last Newton correction is between 1e-12 and 1e-4", "Kepler's equation is only satisfied to about 1e-9")
make("s05_angle_clamp", "C02", [("math/linalg.py", "@@", "")], "", "", "") if False else None
make("s06_hohmann_down", "C09", [("planning/maneuvers.py", "self.transfer_velocity_2: float = VisViva.eccentric_velocity(r2, sma)", "self.transfer_velocity_2: float = VisViva.circular_velocity(max(r1, r2)) * sqrt(min(r1, r2) / sma)")],
"""from math import sqrt
from openspace.planning.maneuvers import Hohmann
for r1, r2 in ((6778, 42164), (42164, 6778), (8000, 7000)):
    h = Hohmann(r1, r2)
    v = sqrt(398600.4418 * (2 / r2 - 2 / (r1 + r2)))
    assert abs(h.transfer_velocity_2 - v) < 1e-9, (r1, r2, h.transfer_velocity_2, v)
""", "a transfer to a smaller orbit", "arrival speed of inward transfers is the apogee speed instead of the perigee speed")
make("s05_angle_clamp", "C02", [("math/linalg.py", "        elif arg < -1:\n            arg = -1\n        return acos(arg)", "        return acos(arg)")],
"""from openspace.math.linalg import Vector3D
import random
random.seed(4)
for _ in range(2000):
    a = Vector3D(random.uniform(-1, 1), random.uniform(-1, 1), random.uniform(-1, 1))
    a.angle(a.scaled(-3.7))
""", "exactly opposite vectors whose rounded normalised dot product is below -1", "the angle of antiparallel vectors fails with a math domain error for some vectors")
