"""planted bugs that need a spacecraft in a particular condition, which the operation does not otherwise depend on"""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from seed import make
only = sys.argv[1:]


def mk(id, *a):
    if not only or any(o in id for o in only):
        make(id, *a)


PAIR = """from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Sun
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
e = Epoch(58849.25)
p = Vector3D(42164, 0, 0)
d = Sun.get_position(e).minus(p)
a = Spacecraft(GCRF(e, p, Vector3D(0, 3.0747, 0)))
u = d.cross(Vector3D(0, 0, 1)).normalized()
"""
mk("s35_blind_while_slewing", "C21", [("bodies/artificial.py", "    def detect(self, target: \"Spacecraft\") -> bool:", "    def detect(self, target: \"Spacecraft\") -> bool:\n        if self.slewing:\n            return False\n        return self._in_view(target)\n\n    def _in_view(self, target: \"Spacecraft\") -> bool:")],
PAIR + """t = Spacecraft(GCRF(e, p.plus(d.normalized().scaled(-50)), Vector3D(0, 3.0747, 0)))
a.track_state(t)
a.body_z = a.target_vector(t)
l = a.wfov.limits
l.earth = l.moon = 0.0
l.sun_soft = 1.0
l.vismag = 40
a.slewing = False
assert a.detect(t)
a.slewing = True
assert a.detect(t)
""", "a target in view while a slew is under way", "detection answers no although every limit of the payload is met")
mk("s36_impulse_uses_propellant", "C15", [("bodies/artificial.py", "        self.propagator = RK4(\n            StateConvert", "        self.propellant_mass *= e ** (-ric_burn.magnitude() / (self.isp * SEA_LEVEL_G)) if self.propellant_mass < 100 else 1\n        self.propagator = RK4(\n            StateConvert")],
PAIR + """a.propellant_mass = 50
a.impulsive_maneuver(Vector3D(0, 0.01, 0))
assert a.total_mass() == 650, a.total_mass()
""", "an impulsive maneuver with less than 100 kg of propellant left", "an impulsive maneuver changes something other than the velocity")
mk("s37_dark_side_of_steering", "C21", [("bodies/artificial.py", "        return self.sun_vector().angle(self.target_vector(target))", "        v = self.body_z.scaled(-1) if self.steering == Spacecraft.STEERING_MODES[1] else self.sun_vector()\n        return v.angle(self.target_vector(target))")],
PAIR + """t = Spacecraft(GCRF(e, p.plus(u.scaled(50)), Vector3D(0, 3.0747, 0)))
a.track_sun()
x = a.sun_angle(t)
a.propagator.step_to_epoch(e.plus_days(0.1))
t.propagator.step_to_epoch(e.plus_days(0.1))
assert abs(a.sun_angle(t) - a.sun_vector().angle(a.target_vector(t))) < 1e-9
""", "solar steering and a body axis that has not been refreshed", "the sun angle is taken from the attitude instead of the geometry")
