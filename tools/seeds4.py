"""planted bugs at the edge of ordinary use: very far targets, long burns, large relative steps, repeated commands"""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from seed import make
only = sys.argv[1:]


def mk(id, *a):
    if not only or any(o in id for o in only):
        make(id, *a)


mk("s30_burn_left_on", "C15", [("propagators/inertial.py", "        self.m0 = 0\n        self.m_dot = 0\n", "        if dv_duration < 36000:\n            self.m0 = self.m_dot = 0\n")],
"""from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.propagators.inertial import RK4
from openspace.time import Epoch
s = GCRF(Epoch(58849), Vector3D(42164, 0, 0), Vector3D(0, 3.0747, 0))
s.use_perturbations = False
for mdot in (0.1, 0.001):
    p = RK4(s)
    p.maneuver(Vector3D(0, 0.2, 0), mdot, 1000, 300)
    assert p.m_dot == 0 and p.m0 == 0, (mdot, p.m_dot, p.m0)
    p.step()
    assert p.state.thrust.magnitude() == 0
""", "a finite burn that lasts longer than ten hours", "the engine is never shut down")
mk("s31_slew_restarted", "C20", [("bodies/artificial.py", "        if self.steering != Spacecraft.STEERING_MODES[0]:", "        if self.slewing or self.steering != Spacecraft.STEERING_MODES[0]:")],
"""from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
s = GCRF(Epoch(58849), Vector3D(42164, 0, 0), Vector3D(0, 3.0747, 0))
c = Spacecraft(s)
c.track_sun()
c.track_lvlh()
stop = c.slew_stop.value
assert c.slewing
c.track_lvlh()
assert c.slew_stop.value == stop, (c.slew_stop.value, stop)
""", "asking for the nadir attitude again while the slew to it is under way", "the repeated request starts the slew anew")
mk("s32_detect_within_a_million_km", "C21", [("bodies/artificial.py", "        success: bool = True", "        success: bool = self.range(target) < 1e6")],
"""from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Moon, Sun
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
e = Epoch(58849)
s = GCRF(e, Vector3D(42164, 0, 0), Vector3D(0, 3.0747, 0))
c = Spacecraft(s)
for k in (100.0, 2e6):
    t = Spacecraft(GCRF(e, s.position.plus(Sun.get_position(e).scaled(-1).normalized().cross(Moon.get_position(e)).normalized().scaled(k)), s.velocity))
    lim = c.wfov.limits
    lim.sun_soft = lim.earth = lim.moon = 0.0
    lim.bore = 4.0
    lim.vismag = 90.0
    assert c.detect(t) is True, k
""", "a target more than a million kilometres away that meets every limit of the payload", "it is never detected")
mk("s33_hill_wraps_once_round", "C17", [("propagators/relative.py", "        self.step_by_seconds(self.step_size)", "        self.step_by_seconds(self.step_size)\n        if abs(self.state.position.y) > 3.141592653589793 * self.sma:\n            self.state.position.y -= 6.283185307179586 * self.sma")],
"""from openspace.coordinates.states import HCW
from openspace.math.linalg import Vector3D
from openspace.propagators.relative import Hill
from openspace.time import Epoch
for y in (20.0, 30000.0, -30000.0):
    s = HCW(Epoch(0), Vector3D(0, y, 0), Vector3D(0, 0, 0))
    a, b = Hill(s, 7000), Hill(s, 7000)
    a.step()
    b.step_by_seconds(a.step_size)
    assert a.state.position.minus(b.state.position).magnitude() < 1e-6, y
""", "a relative state more than half an orbit ahead", "stepping no longer applies the transition matrix")
mk("s34_filter_ignores_second_sensor", "C18", [("estimation/filtering.py", "        dt: float = (ob.observer_state.epoch.value - self.epoch.value) * SECONDS_IN_DAY", "        dt: float = (ob.observer_state.epoch.value - self.epoch.value) * SECONDS_IN_DAY\n        if dt == 0 and self.range_error:\n            return")],
"""from openspace.coordinates.states import GCRF, HCW, StateConvert
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.obs import SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.propagators.relative import Hill
from openspace.time import Epoch
e = Epoch(58849)
s = GCRF(e, Vector3D(42164, 0, 0), Vector3D(0, 3.0747, 0))
f = RelativeKalman(e, Hill(HCW(e, Vector3D(1, -20, 3), Vector3D(0, 0, 0)), 42164))
w = []
for d in (Vector3D(1.2, -21, 3), Vector3D(1.1, -20.5, 3.2)):
    f.process(SpaceObservation(s, d, 0.05, 1e-4))
    w.append((f.x00.x, f.x00.y, f.x00.z))
assert w[0] != w[1], w
""", "two observations of the same instant (two sensors)", "the second one is dropped")
