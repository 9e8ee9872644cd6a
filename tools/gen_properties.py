#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/openspace/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": "src/openspace/" + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Vector and matrix arithmetic follows linear algebra",
 "For all operands, sums, differences, scalings, dot and cross products, magnitudes, unit vectors, rows, columns, diagonals, transposes, matrix-vector and matrix-matrix products, determinants, cofactors and adjugates of the 3- and 6-dimensional vector and matrix types equal their textbook entry-by-entry definitions (rounding aside). "
 "A nonsingular 3x3 matrix times its computed inverse, on either side, is the identity.",
 ["inputs"], "all component values, all shapes offered (3, 6, 3x3, 3x6, 6x3, 6x6), including zero, negative and asymmetric ones",
 "tests sample one or two operand pairs of Vector3D and no matrix at all: an error in a single entry of a 6x6 product, a transposed index or a sign in a cofactor is not exercised",
 ["math/linalg.py"], [("vector/matrix classes", "math/linalg.py")], observe=["return values of the Vector*/Matrix* methods"])

prop("C02", "Rotations are proper and right-handed; angles are true angles",
 "Rotating any vector about any nonzero axis by any angle preserves its length and its component along the axis, turns it right-handed by exactly that angle, and is undone by the opposite angle. "
 "The angle between any two nonzero vectors is the value in [0, pi] whose cosine is their normalised dot product, and it is defined for every such pair, also where rounding would push that cosine outside [-1, 1]. "
 "Range noise changes only a vector's length and angular noise only its direction, for every nonzero vector.",
 ["inputs"], "all vectors, axes (nonzero), angles and noise draws, including parallel, antiparallel and polar directions",
 "one rotation and no angle of (anti)parallel vectors is tested; orthogonality for all axes and the rounding-safe clamp cannot be established by samples",
 ["math/linalg.py"], [("Rodrigues matrix", "math/linalg.py Vector3D.rotation_matrix"), ("clamp before acos", "math/linalg.py Vector3D.angle"), ("noise model", "math/linalg.py Vector3D.with_noise")])

prop("C03", "Operations never modify or share state with their operands",
 "No arithmetic operation, query, copy or frame conversion changes the objects it is given or any shared library constant or default, and the vectors, matrices, epochs and states it returns share no mutable part with its arguments. "
 "Building a matrix, state, observation, propagator or spacecraft copies the vectors, epochs and states it is given, so later changes to the original never reach it (nor the reverse).",
 ["inputs", "histories"], "every operation of the vector, matrix, time, position, state, observation and propagator types, in any order, with operands reused afterwards",
 "no test reuses an operand after an operation or mutates a result; aliasing only shows in particular call histories",
 ["math/linalg.py", "time.py", "coordinates/states.py", "coordinates/positions.py", "coordinates/elements.py", "estimation/obs.py", "propagators/inertial.py", "propagators/relative.py", "bodies/artificial.py"],
 [("defensive copies in constructors", "coordinates/states.py State.__init__"), ("copy in matrix constructors", "math/linalg.py"), ("copying accessors", "bodies/artificial.py")])

prop("C04", "Calendar dates map to the right continuous day count",
 "For every Gregorian calendar date and time of day, the epoch built from it equals the proleptic-Gregorian modified Julian day number plus the elapsed fraction of the day, so consecutive dates are exactly one day apart across month ends, leap years and century years. "
 "Julian date, centuries past J2000 and day offsets are the exact affine functions of that value, and offsetting an epoch leaves the original unchanged.",
 ["inputs"], "all integer years, months 1-12, valid days, all times of day, all offsets",
 "tests use three dates; month/leap/century boundaries and negative offsets are unsampled",
 ["time.py", "math/functions.py", "math/constants.py"], [("month shift and Gregorian rule", "time.py Epoch.from_gregorian"), ("h/m/s to days", "math/functions.py Conversions.hms_to_decimal_day")],
 state=[("value", "modified Julian days", "time.py Epoch.value")])

prop("C05", "Greenwich sidereal angle follows the published GMST at every epoch",
 "For every epoch, past or future, the Greenwich hour angle lies in [0, 2*pi) and equals, modulo a full turn, 100.4606184 + 36000.77004*T + 0.000387933*T^2 degrees at 0h plus 360.98564724 degrees per elapsed day, where T is Julian centuries from J2000 to 0h and 69.184 seconds are first removed from the epoch.",
 ["inputs"], "all epochs, including negative MJD and the instants around day boundaries",
 "tests evaluate it at two or three epochs; day-boundary and negative-MJD behaviour is unsampled",
 ["time.py"], [("GMST polynomial and day split", "time.py Epoch.greenwich_hour_angle")])

prop("C06", "Celestial/terrestrial frame conversions are consistent rotations",
 "For every epoch and position, GCRF->MOD->TOD->ITRF applies the published IAU precession, the low-order nutation and the apparent-sidereal rotation, in that order; precession and Earth rotation are exactly orthogonal with determinant +1. "
 "Converting ITRF back to GCRF (through the same intermediate frames) returns the original position to within 1.1e-8 of its length. "
 "ITRF to IJK is a pure rotation about the pole by the Greenwich hour angle.",
 ["inputs"], "all epochs and all position vectors",
 "one epoch/position pair is tested to a tolerance of half a kilometre, and the reverse conversions are not tested",
 ["bodies/celestial.py", "coordinates/positions.py", "time.py", "math/linalg.py"],
 [("precession/nutation/rotation matrices", "bodies/celestial.py Earth"), ("conversion chain", "coordinates/positions.py _PositionConvertGCRF/_PositionConvertITRF")])

prop("C07", "Geodetic conversion is an exact inverse pair",
 "Converting any Earth-fixed position at least 1000 km from Earth's centre to geodetic latitude, longitude and altitude and back returns that position (rounding aside), and the conversion is defined everywhere there, including on the equator, on the polar axis and in every octant. "
 "Latitude lies in [-90, 90] degrees with the sign of z, longitude in [0, 360) degrees, and altitude is measured along the ellipsoid normal. "
 "A ground site created from a position or from geodetic coordinates keeps that position and those coordinates.",
 ["inputs"], "all positions with radius >= 1000 km; all latitudes, longitudes, altitudes",
 "two northern/eastern sites are tested; poles, equator, southern and western octants are not",
 ["coordinates/positions.py", "bodies/terrestrial.py"], [("closed-form Sofair solution", "coordinates/positions.py _PositionConvertITRF.to_lla"), ("ellipsoid", "coordinates/positions.py _PositionConvertLLA.to_itrf"), ("site", "bodies/terrestrial.py GroundSite")])

prop("C08", "Spherical and topocentric observations describe the true direction",
 "Spherical coordinates of any nonzero vector reproduce that vector, with right ascension in [0, 2*pi) and declination in [-pi/2, pi/2]. "
 "A site's east-north-zenith axes are orthonormal and right-handed, and an observation's azimuth (clockwise from north), elevation and range describe the vector from site to object and reproduce it. "
 "The inertial position reported by a ground or space observation is the observer position plus the observed direction expressed in the same frame, at the observation epoch.",
 ["inputs"], "all vectors, sites, epochs, azimuths, elevations and ranges",
 "a single site and one pass are tested; octants, zenith/horizon and the inverse direction are not",
 ["coordinates/positions.py", "estimation/obs.py", "bodies/terrestrial.py"],
 [("spherical conversion", "coordinates/positions.py SphericalPosition"), ("ENZ axes", "coordinates/positions.py ENZ.matrix"), ("observations", "estimation/obs.py"), ("angles and range", "bodies/terrestrial.py GroundSite.angles_and_range")])

prop("C09", "Two-body scalar relations and transfer plans are mutually consistent",
 "For every elliptical orbit the formulas among semi-major and semi-minor axis, semi-parameter, eccentricity, flattening, period, mean motion, areal velocity, specific energy, radius and speed satisfy the cited two-body equations, so that different routes to the same quantity agree (for example axis from period and period from axis are inverse, and speed from energy equals vis-viva speed). "
 "A Hohmann plan between any two radii starts and ends at the circular speeds, its transfer speeds are those of the ellipse touching both radii, and its burns are the speed differences.",
 ["inputs"], "all positive gravitational parameters and all valid orbit shapes and radii",
 "each formula is checked at one point, in several cases with e = 0 or a/b = 2, where wrong formulas coincide",
 ["math/functions.py", "planning/maneuvers.py"], [("EquationsOfMotion family", "math/functions.py"), ("VisViva, Hohmann", "planning/maneuvers.py")])

prop("C10", "Anomalies and orbit angles satisfy their defining equations and ranges",
 "For every eccentricity in [0, 1) and mean anomaly, the eccentric anomaly returned satisfies Kepler's equation to 1e-11 radians (modulo a full turn); conversions between eccentric, true and mean anomaly agree with their geometric definitions. "
 "Right ascension of the node, argument of latitude, argument of perigee and the anomalies derived from an orbit are returned in [0, 2*pi) and inclination in [0, pi], each in the correct quadrant.",
 ["inputs"], "all eccentricities in [0,1), all anomalies, all momentum and position vectors",
 "one sample per function; quadrants and wrap-around are mostly unsampled, and the solver's stopping rule is only seen to 7 digits",
 ["math/functions.py"], [("Newton iteration on Kepler's equation", "math/functions.py EccentricAnomaly.from_ma_e"), ("angle wrapping", "math/functions.py")],
 state=[("TOLERANCE", "stop criterion", "math/functions.py EccentricAnomaly")])

prop("C11", "Orbital elements and Cartesian states convert back and forth losslessly",
 "For every bound, non-rectilinear inertial state - circular, equatorial and retrograde ones included - converting to classical elements and back reproduces epoch, position and velocity up to the Kepler-solver tolerance and rounding, and the conversion never fails. "
 "The state computed from any element set with eccentricity in [0, 1) has exactly the element set's orbital energy, angular momentum and orbit plane.",
 ["inputs"], "all bound states with nonzero angular momentum; all element sets with 0 <= e < 1",
 "one forward conversion is tested, the reverse never, and no circular or equatorial orbit",
 ["coordinates/elements.py", "math/functions.py"], [("from_ijk/to_ijk", "coordinates/elements.py ClassicalElements"), ("element formulas", "math/functions.py")])

prop("C12", "Sun and Moon positions follow the published analytical series",
 "For every epoch the Sun and Moon positions equal the low-precision series of Montenbruck & Gill (solar coordinates eqs. 3.43-3.45, lunar longitude, latitude and distance eqs. 3.47-3.51), rotated from ecliptic to equator by the J2000 obliquity. "
 "In consequence the Sun stays in the ecliptic plane between 147.0 and 152.2 million km and the Moon between 355,000 and 415,000 km from Earth.",
 ["inputs"], "all epochs",
 "one epoch per body is tested to 3-4 digits: most of the 30 series terms can change sign or argument within that tolerance",
 ["bodies/celestial.py", "time.py"], [("solar series", "bodies/celestial.py Sun.get_position"), ("lunar series", "bodies/celestial.py Moon.get_position")])

prop("C13", "The force model sums exactly the physical accelerations",
 "For every state off the polar axis the central acceleration is -mu*r/|r|^3, the lunar and solar accelerations are the direct minus the indirect third-body terms, and radiation pressure pushes away from the Sun in proportion to the state's coefficient (for a new spacecraft (1 + albedo) times area over mass). "
 "The non-spherical Earth acceleration is the gradient of the degree-and-order-4 geopotential with the published coefficients, taken in the Earth-fixed frame and expressed in GCRF. "
 "The state derivative is the velocity together with thrust plus central acceleration plus, only while perturbations are enabled, exactly these four terms.",
 ["inputs", "configurations"], "all epochs, positions off the polar axis, velocities, thrusts, radiation coefficients, and both perturbation settings",
 "two magnitudes at one equatorial point are checked to 7 decimals (the whole perturbation is 1.6e-5): signs, tesseral terms, frames and the perturbation switch are unconstrained",
 ["coordinates/states.py", "bodies/celestial.py", "math/functions.py"], [("GCRF.acceleration_* and derivative", "coordinates/states.py"), ("Legendre functions", "math/functions.py LegendrePolynomial"), ("C/S coefficients", "bodies/celestial.py Earth")])

prop("C14", "Propagation is classical RK4 and lands on the requested epoch",
 "One propagator step advances position and velocity by the classical fourth-order Runge-Kutta combination of the force model over the stored step size, advances the epoch by exactly that step, and keeps the state's perturbation setting and radiation-pressure coefficient. "
 "Propagating to any requested epoch, earlier or later, ends at that epoch, integrates exactly the time difference in equal sub-steps none longer than the maximum step, leaves the stored step size unchanged, and does nothing when already there.",
 ["inputs", "histories"], "all states, step sizes, force values, and all target epochs before or after the current one",
 "one 19-hour forward run is checked to 10 km; backward runs, partial steps, step-size restoration and repeated use are not",
 ["propagators/inertial.py", "bodies/artificial.py"], [("RK4.step", "propagators/inertial.py"), ("step_to_epoch", "propagators/inertial.py")],
 state=[("step_size", "stored step in seconds", "propagators/inertial.py RK4")])

prop("C15", "Maneuvers deliver the commanded velocity change and burn the right mass",
 "An impulsive maneuver leaves position and epoch unchanged and adds exactly the commanded radial/in-track/cross-track vector, expressed in the inertial frame, to the velocity. "
 "A finite maneuver thrusts along the commanded direction, mapped from the orbit frame to the inertial frame, with acceleration m_dot*Isp*g0 divided by the current mass, which decreases at m_dot throughout the burn including across integration sub-steps, for the duration the rocket equation requires. "
 "Its propellant use is exactly m_dot times that duration, so the remaining total mass is the initial mass times exp(-dv/(Isp*g0)), and thrust is off afterwards.",
 ["inputs", "histories"], "all states, burn vectors, flow rates, masses and specific impulses, for burns shorter and longer than one integration step",
 "no maneuver is tested at all",
 ["bodies/artificial.py", "propagators/inertial.py", "coordinates/states.py"], [("impulsive/finite maneuver", "bodies/artificial.py Spacecraft"), ("thrust model", "propagators/inertial.py RK4.maneuver/thrust_vector")],
 state=[("propellant_mass", "kg of propellant left", "bodies/artificial.py Spacecraft"), ("m0/m_dot", "current burn mass and flow", "propagators/inertial.py RK4")])

prop("C16", "Inertial and relative (Hill) states convert back and forth losslessly",
 "For every origin orbit the radial/in-track/cross-track axes are orthonormal and right-handed, radial along position and cross-track along angular momentum, and the origin itself has the zero relative state. "
 "Converting any inertial state off the origin's orbit-normal axis to the relative curvilinear frame and back returns its position and velocity, and converting a relative state with in-track angle within (-pi, pi) and cross-track angle within (-pi/2, pi/2) to inertial and back returns it, with the origin's epoch.",
 ["inputs"], "all origins with nonzero angular momentum, all states off the orbit normal, all relative states in the stated ranges",
 "no relative conversion is tested",
 ["coordinates/states.py"], [("to_hcw/to_gcrf", "coordinates/states.py _StateConvertGCRF/_StateConvertHCW"), ("RIC axes", "coordinates/states.py HCW.frame_matrix")])

prop("C17", "Relative propagation solves the Clohessy-Wiltshire equations",
 "For every origin semi-major axis and every time span, forward or backward, the relative transition matrix is the identity at zero, satisfies the Clohessy-Wiltshire differential equations with mean motion sqrt(mu/a^3), and composes: advancing by t1 then t2 equals advancing by t1+t2. "
 "Stepping the relative propagator applies that matrix to the current position and velocity.",
 ["inputs", "histories"], "all semi-major axes > 0, all time spans of either sign, all relative states, all sequences of steps",
 "the relative propagator has no test",
 ["propagators/relative.py", "coordinates/states.py"], [("system matrix", "propagators/relative.py Hill.system_matrix"), ("stepping", "propagators/relative.py Hill.step_by_seconds")])

prop("C18", "The relative navigation filter is a consistent Kalman filter",
 "Along every sequence of processed observations the filter covariance stays symmetric and positive semidefinite, prediction is F*P*F' + Q over exactly the time elapsed since the previous observation, the gain is the optimal one (gain times innovation covariance equals predicted cross-covariance), and the update is the Joseph form. "
 "The estimate is the prediction plus gain times the innovation and is what the filter's propagator holds afterwards; the measurement noise is diagonal with the squared relative-frame errors. "
 "A filter starts from the seed's relative state when a target is acquired, and processing observations never alters another filter (with a propagator of its own) or the default covariance and noise.",
 ["inputs", "histories"], "all initial states, all observation sequences with nonnegative errors, several filters in one process",
 "the filter has no test",
 ["estimation/filtering.py", "math/linalg.py", "propagators/relative.py"], [("RelativeKalman", "estimation/filtering.py")],
 state=[("p00/p10", "current/predicted covariance", "estimation/filtering.py"), ("x00/x10", "current/predicted state", "estimation/filtering.py")])

prop("C19", "Two-position orbit determination returns an orbit through both positions",
 "For every pair of non-collinear observed positions with time between them (transfer below half a turn on an elliptical arc), whenever the iteration converges, the element set returned is valid at the first epoch, its orbit plane contains both positions with the node and inclination of the direction of motion, and it places the object at the first observed position at the first epoch and passes through the second position. "
 "Its semi-parameter is the one implied by the converged sector-to-triangle ratio, whose secant iteration stops only when successive values agree to 1e-12.",
 ["inputs"], "all pairs of observations whose short-way transfer is elliptical, all quadrants of true anomaly and argument of latitude",
 "one textbook pair is tested; other quadrants (perigee passage, descending passes, retrograde planes) are not",
 ["estimation/iod.py", "estimation/obs.py"], [("Gauss.coes_from_positions", "estimation/iod.py"), ("secant iteration", "estimation/iod.py Gauss.solve_nu")])

prop("C20", "Spacecraft attitude points where commanded with right-handed body axes",
 "After every step, propagation or tracking command the body axes are mutually orthogonal and right-handed, with the z-axis toward Earth, away from the Sun, or toward the currently commanded target, evaluated at the spacecraft's current epoch with the tracked target propagated to the same epoch. "
 "Switching to another steering mode starts a slew lasting the angle between the old and new pointing divided by the slew rate, and slewing ends exactly when the current time passes its stop time; commanding a new target while tracking re-points to the new target.",
 ["histories", "inputs"], "all sequences of steps and mode commands, all geometries where the pointing axes are defined",
 "attitude and tracking have no test",
 ["bodies/artificial.py"], [("update_attitude / track_*", "bodies/artificial.py Spacecraft")],
 state=[("steering, slewing, slew_stop, tracked_target", "attitude mode state", "bodies/artificial.py Spacecraft"), ("body_x/y/z", "body axes", "bodies/artificial.py Spacecraft")])

prop("C21", "Detection and sensor models apply every constraint to the right object",
 "A target is detected exactly when its Sun, Earth and Moon separation angles are at least the wide-field sensor's limits, its visual magnitude is at most the limiting magnitude and it lies within the field-of-view limit of the boresight. "
 "Visual magnitude is computed from the target's own size and albedo, its range and its phase angle; separation angles, ranges and vectors are measured from the observing spacecraft at its current epoch. "
 "Sensor resolution grows linearly with range and equals the resolution limit exactly at the characterization range, and simulated observations carry the sensor's range error and pointing accuracy.",
 ["inputs", "configurations"], "all geometries, target sizes and albedos, sensors and limits",
 "sensing has no test",
 ["bodies/artificial.py", "hardware/payloads.py", "hardware/constraints.py"], [("detect / visual_magnitude", "bodies/artificial.py Spacecraft"), ("Camera", "hardware/payloads.py"), ("limits", "hardware/constraints.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
