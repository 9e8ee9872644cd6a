"""planted bugs that need a history of calls (state kept between calls) or an iteration that runs long"""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from seed import make
only = sys.argv[1:]


def mk(id, *a):
    if not only or any(o in id for o in only):
        make(id, *a)


MAG = "        return sqrt(self.x * self.x + self.y * self.y + self.z * self.z)"
mk("s24_stale_magnitude", "C01", [("math/linalg.py", MAG, '        if not hasattr(self, "_mag"):\n            self._mag = sqrt(self.x * self.x + self.y * self.y + self.z * self.z)\n        return self._mag')],
"""from openspace.math.linalg import Vector3D
v = Vector3D(3, 4, 0)
assert abs(v.magnitude() - 5) < 1e-12
v.z = 12
assert abs(v.magnitude() - 13) < 1e-12, v.magnitude()
v = Vector3D(1, 0, 0)
assert v.normalized().x == 1
v.x = 10
assert abs(v.normalized().x - 1) < 1e-12, v.normalized().x
""", "asking a vector for its magnitude, changing a component, asking again", "the remembered magnitude is stale")
mk("s25_stale_hill_step", "C17", [("propagators/relative.py", "        self.step_by_seconds(self.step_size)", '        if getattr(self, "_step_matrix", None) is None:\n            self._step_matrix = self.system_matrix(self.step_size)\n        self.state = HCW.from_state_vector(self._step_matrix.multiply_vector(self.state.vector))')],
"""from openspace.coordinates.states import HCW
from openspace.math.linalg import Vector3D
from openspace.propagators.relative import Hill
from openspace.time import Epoch
s = HCW(Epoch(0), Vector3D(1, -20, 3), Vector3D(0.001, 0, -0.002))
a, b = Hill(s, 42164), Hill(s, 42164)
for dt in (600, 60, -300):
    a.step_size = dt
    a.step()
    b.step_by_seconds(dt)
    assert a.state.position.minus(b.state.position).magnitude() < 1e-9, dt
""", "changing the step size between two steps of one propagator", "later steps still use the first step's transition matrix")
mk("s26_shared_legendre", "C03", [("math/functions.py", "        self.p: List[List[float]] = [", "        LegendrePolynomial.p = [")],
"""from openspace.math.functions import LegendrePolynomial
a = LegendrePolynomial(0.3)
before = [list(r) for r in a.p]
b = LegendrePolynomial(-0.7)
assert [list(r) for r in a.p] == before
assert a.p is not b.p
""", "keeping one polynomial while another is computed", "all polynomials share one table: the second overwrites the first")
mk("s27_sun_cached_by_minute", "C12", [("bodies/celestial.py", "        a = Conversions.dms_to_radians(0, 0, 6892)", "        key = int(epoch.value * 1440)\n        if key in Sun._CACHE:\n            return Sun._CACHE[key].copy()\n        a = Conversions.dms_to_radians(0, 0, 6892)"),
    ("bodies/celestial.py", "    AU = ", "    _CACHE = {}\n    AU = "),
    ("bodies/celestial.py", "        return Vector3D(x, y, z)\n", "        Sun._CACHE[key] = Vector3D(x, y, z)\n        return Vector3D(x, y, z)\n")],
"""from openspace.bodies.celestial import Sun
from openspace.time import Epoch
a = Sun.get_position(Epoch(58849.0))
b = Sun.get_position(Epoch(58849.0 + 50 / 86400))
assert a.minus(b).magnitude() > 100, a.minus(b).magnitude()
""", "two epochs less than a minute apart", "the second gets the Sun position of the first")
mk("s28_kepler_endless", "C10", [("math/functions.py", "TOLERANCE: float = 1e-12", "TOLERANCE: float = 1e-16")],
"""import random
import signal
from openspace.math.functions import EccentricAnomaly
signal.alarm(60)
r = random.Random(4)
for _ in range(20000):
    EccentricAnomaly.from_ma_e(r.uniform(0, 6.28), r.uniform(0, 0.95))
""", "a mean anomaly for which two neighbouring doubles alternate in Newton's iteration", "Kepler's equation is iterated for ever")
mk("s29_kepler_too_few_iterations", "C10", [("math/functions.py", "        while not converged:\n            ean = ea0", "        for _ in range(7):\n            ean = ea0")],
"""from math import sin, pi
from openspace.math.functions import EccentricAnomaly
for e in (0.1, 0.7, 0.97, 0.999):
    for m in (1e-6, 1e-4, 1e-3, 0.02, 1, 3, 2 * pi - 1e-4):
        x = EccentricAnomaly.from_ma_e(m, e)
        assert min(abs(x - e * sin(x) - m), abs(x - e * sin(x) - m - 2 * pi)) < 1e-10, (m, e, x)
""", "a very eccentric orbit close to perigee", "Newton's iteration is cut off before it has converged")
