"""Which contracts decide which property."""

ASSUME = [
    "machine floating-point arithmetic is treated as exact real arithmetic; rounding is outside the proofs (concrete cross-checks compare native doubles with the specification to a tolerance)",
    "float literals denote the decimal number written; literals equal to a simple multiple of pi to the last digit denote that multiple",
    "arguments have the documented types and finite values",
]
TRUSTED = [
    "CPython 3.12 executing the repository's own source (path-wise symbolic execution by operator overloading)",
    "dv/loader.py source transformation (float literals, / and **, loop heads, math/random/float/int/range builtins)",
    "dv/ring.py polynomial identity procedure, dv/prove.py interval, angle, square rules",
    "z3 4.x (python z3-solver) for the remaining arithmetic obligations",
    "standard axioms on sin, cos, sqrt, atan2, asin, acos, exp, log, floor",
]

V = {"domain", "domain-float", "pre", "post", "type", "frame", "no-exception", "lemma", "infeasible"}
OWN = {"frame", "fresh", "no-exception"}

PROPS = {
    "C01": dict(roots=["linalg.Vector*", "linalg.Matrix*"], exclude=["linalg.Vector3D.rotation*", "linalg.Vector3D.with*", "linalg.Vector3D.angle"], kinds=V),
    "C02": dict(roots=["linalg.Vector3D.rotation*", "linalg.Vector3D.with*", "linalg.Vector3D.angle", "linalg.lemma.rot*"], kinds=V),
    "C03": dict(roots=["*"], exclude=["*lemma*"], kinds=OWN),
    "C04": dict(roots=["time.hms", "time.Epoch", "time.Epoch.copy", "time.Epoch.plus_days", "time.Epoch.julian*", "time.Epoch.from_gregorian"], kinds=V),
    "C05": dict(roots=["time.Epoch.gha"], kinds=V),
    "C06": dict(roots=["sky.Earth.*", "pos.gcrf.*", "pos.itrf.to_tod", "pos.itrf.to_mod", "pos.itrf.to_gcrf", "pos.itrf.to_ijk", "pos.lemma.roundtrip"], kinds=V),
    "C07": dict(roots=["geo.itrf.to_lla", "geo.lla.*", "geo.LLA*", "geo.GroundSite*"], kinds=V),
    "C08": dict(roots=["geo.Spherical*", "geo.ENZ*", "geo.enz*", "geo.*Observation*", "geo.lemma.*", "geo.GroundSite.enz_position", "geo.GroundSite.angles_and_range"], kinds=V),
    "C09": dict(roots=["fn.Ecc*.from_a_*", "fn.Flat*", "fn.Semi*", "fn.Areal*", "fn.Radius*", "fn.Spec*", "fn.Vis*", "fn.Period*", "fn.MeanMotion*", "fn.lemma.*", "plan.*"], kinds=V),
    "C10": dict(roots=["fn.EccentricAnomaly.*", "fn.TrueAnomaly*", "fn.MeanAnomaly*", "fn.ArgumentOf*", "fn.RightAsc*", "fn.Inclination*"], kinds=V),
    "C11": dict(roots=["elem.*"], kinds=V, assume=["every bound inertial state with nonzero angular momentum lies on a Kepler ellipse (the change of variables used by elem.from_ijk.* and elem.lemma.roundtrip.*)"]),
    "C12": dict(roots=["sky.Sun.position", "sky.Moon.position"], kinds=V),
    "C13": dict(roots=["force.*", "sat.area", "sat.srp_scalar", "sat.total_mass", "sat.Spacecraft.srp"], kinds=V),
    "C14": dict(roots=["rk4.RK4", "rk4.step*", "sat.step*", "state.GCRF*"], kinds=V),
    "C15": dict(roots=["rk4.thrust_vector", "rk4.maneuver", "rk4.step_to_epoch", "rk4.step", "sat.impulsive_maneuver", "sat.finite_maneuver", "sat.total_mass", "force.thrust", "force.derivative"], kinds=V),
    "C16": dict(roots=["state.*", "sat.hill_position"], exclude=["*.srp"], kinds=V, assume=["every pair of states with a turning origin is given in orbit-frame coordinates (the change of variables used by state.gcrf.to_hcw and the round-trip lemmas)"]),
    "C17": dict(roots=["hill.*"], kinds=V),
    "C18": dict(roots=["nav.*", "sat.process*"], kinds=V),
    "C19": dict(roots=["iod.*"], kinds=V, assume=["the two observed positions and the converged ratio are parametrised by the ellipse they determine (frame angles, radius, true anomaly, eccentricity): the change of variables used by iod.coes_from_positions.*"]),
    "C20": dict(roots=["sat.update_attitude*", "sat.track*", "sat.step*", "sat.acquire", "sat.Spacecraft"], kinds=V),
    "C21": dict(roots=["sat.detect", "sat.visual_magnitude", "sat.*angle", "sat.range", "sat.*vector", "sat.position", "sat.velocity", "sat.current*", "sat.observe*", "cam.*"], kinds=V),
}

NOTES = {}
