"""The properties: their text (vc/gen.py writes properties.jsonl and MANIFEST.json from it)
and the harnesses whose obligations decide them."""
BASE_ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN or infinity)",
    "the verified text is the LLVM IR clang 18 emits for /repo's sources (front end, opt clean-up passes and the verifier in /verif/vc are trusted)",
    "square roots are read where their argument is non-negative",
    "z3, cvc5 and the polynomial normaliser (vc/polyid.py) are trusted; rational identities are read where their denominators are non-zero",
]
PROPS = {}
NOT_APPLICABLE = []


def P(pid, title, statement, over, text, why, files, mech, harness, **kw):
    if isinstance(harness, dict):
        harness = [harness]
    PROPS[pid] = dict(title=title, statement=statement, quantifier=dict(over=over, text=text), why=why,
                      files=files, mech=mech, harness=harness, **kw)


# harnesses verified with every local object in memory: a use of an object after the end of its
# scope (Eigen expressions kept in auto variables) is then an error
SCOPES = {"kepler_orbit.cpp", "state2ele.cpp", "kepler_stm.cpp", "kepler_lin.cpp", "forces.cpp", "shadow.cpp",
          "clock.cpp", "pointmass.cpp", "sky.cpp", "antenna.cpp"}


def H(src, entries=None, **kw):
    d = dict(src=src, **kw)
    if src in SCOPES:
        d.setdefault("scopes", True)
    if entries:
        d["entries"] = entries
    return d


P("M01", "Compact matrices store every element separately and own their storage",
  "In row-wise, column-wise and trapezoid 2-d matrices of any size, each stored element (in a trapezoid, column <= row) keeps the last value written to it, "
  "writing one element never changes another, and row/column slices and filling address exactly the stored elements. "
  "Copies are deep and independent, moves hand the elements over, self-assignment is harmless, and every block is freed exactly once.",
  ["inputs", "configurations", "histories"], "all matrix dimensions (up to 30000 x 30000), all element index pairs, all values; sequences of copy/move/assign",
  "no test touches the matrix class; index arithmetic and ownership must hold for every dimension",
  ["src/cmat2d.hpp"], [("element_offset/slice per storage type", "src/cmat2d.hpp StorageImplementation"), ("copy/move members", "src/cmat2d.hpp Mat2D")],
  H("mat2d.cpp"))

P("M02", "Spherical-harmonics coefficients: one cell per coefficient, storage never leaks",
  "For every maximum degree, each cosine and sine coefficient of degree n and order m (m<=n, no sine of order 0) has a storage cell of its own: it reads back the last value written and no write to another coefficient changes it. "
  "Resizing and moving keep all coefficients of the new degree addressable, hand the constants and flags over, and release every memory block exactly once.",
  ["inputs", "configurations", "histories"], "all degrees 0..20000, all (n,m) pairs, all coefficient values, sequences of resize and move",
  "the only test reading coefficients needs data files and samples one model; the packing of two triangles in one square must hold for every degree",
  ["src/harmonic_coeffs.hpp", "src/gravity/harmonic_coeffs.cpp"],
  [("C/S share one square array", "src/harmonic_coeffs.hpp C_row/S_row"), ("allocate/deallocate/resize/move", "src/gravity/harmonic_coeffs.cpp")],
  H("harmonics.cpp", "cells|resize|moves|views"))

P("M03", "De-normalising gravity coefficients applies the exact factor to each one, once",
  "De-normalising a set of coefficients up to an order divides every cosine and sine coefficient of degree n>=1 and order m up to that order by the square root of (n+m)!/(n-m)!/((2n+1)(2-d0m)) and leaves all others untouched. "
  "A negative order means the maximum degree; an order above the degree is refused without change, and a second call changes nothing.",
  ["inputs", "configurations"], "all maximum degrees 1..20000, all orders, all coefficient pairs and values",
  "no test checks de-normalised values; the factor must be right for every (n,m) and the in-place update must reach each shared-array cell exactly once",
  ["src/gravity/harmonic_coeffs.cpp", "src/harmonic_coeffs.hpp"],
  [("denormalize/compute_fac/_sum", "src/gravity/harmonic_coeffs.cpp")],
  H("harmonics.cpp", "denormalize"))

P("T01", "Table interpolators return node values, bracket correctly and report the range",
  "For every strictly increasing table, the nearest, linear and quadratic interpolators return a node's own value at that node, the end values with the matching status outside the table, and status 0 inside. "
  "Between two nodes the nearest one returns the value of the closer node, the linear one the chord, and the quadratic one reproduces every quadratic polynomial sampled at the nodes.",
  ["inputs", "configurations"], "all strictly increasing tables of any length, all values, all abscissae",
  "the sample program prints one antenna table without asserting anything",
  ["var/intrp.cc"], [("value_at of each interpolator", "var/intrp.cc")],
  H("intrp.cpp"))

P("F01", "Event flags: setting, clearing and combining touch exactly the named events",
  "After an event is set or cleared that event reads set or cleared and every other event is unchanged; combinations set exactly their members, resetting clears all, and a flag is clean exactly when no event is set.",
  ["inputs", "histories"], "all prior flag contents and all event combinations",
  "the flag test sets one fixed combination; it cannot show that no other event is disturbed",
  ["var/flags.cc"], [("set/clear/is_set shift masks", "var/flags.cc Sp3Flag"), ("operator|", "var/flags.cc")],
  H("flags.cpp", opts=dict(bv=True)))

P("F02", "Enumeration bit sets behave as sets of their members",
  "A bit set holds exactly the members set since they were last cleared: setting or clearing one member leaves the others, list construction holds exactly the listed members, emptiness means no member, and equality means same members.",
  ["inputs", "histories"], "all contents and all member combinations of an 8-bit set",
  "no test exercises the bit set",
  ["src/enum_bitset.hpp"], [("bitwise members", "src/enum_bitset.hpp EnumBitset")],
  H("bitset.cpp", opts=dict(bv=True)))

P("F03", "Packed measurement flags keep their fields independent",
  "In the packed measurement flag each of the three 8-bit fields reads back what was last stored and storing one never changes the other two; the separate, sentinel and packed measurement layouts lead to the same value for the same flags.",
  ["inputs", "histories"], "all prior words, all field values, all measurement values",
  "the test samples random values with fresh randomness and checks all three fields only after setting all three",
  ["var/compound_measurement.cc"], [("get/set by shift and mask", "var/compound_measurement.cc Flag")],
  [H("measurement.cpp", "fields", opts=dict(bv=True)), H("measurement.cpp", "same_decision", opts=dict(bv=True))])

P("M04", "Factorial tables and ratios hold the exact products",
  "The factorial table satisfies 0!=1 and i!=i*(i-1)! for every entry, and the factorial ratio is the product of all integers above the smaller and up to the larger argument.",
  ["inputs"], "all argument pairs up to 100000; every entry of a 60-entry table",
  "no test exercises the factorial helpers",
  ["src/factorial.hpp"], [("table construction", "src/factorial.hpp FactorialLookUpTable"), ("factorialRatio", "src/factorial.hpp")],
  H("factorial.cpp"))



P("A01", "A reported solution of Kepler's equation solves it",
  "For every eccentricity below one, mean anomaly and tolerance, when a Kepler solver reports success the returned eccentric anomaly satisfies E - e sin E = M (M brought to [0,2pi)) to within a small multiple of the tolerance over (1-e). "
  "Failure to converge is reported, a circular orbit gives E = M, and angles are reduced to [0,2pi) by whole turns.",
  ["inputs"], "all eccentricities in [0,1), all mean anomalies, all positive tolerances, any number of iterations",
  "no test calls the solver; a wrong stopping rule or derivative shows only for some (e, M)",
  ["src/astrodynamics/kepler.cpp"], [("Newton iterations and stopping rule", "src/astrodynamics/kepler.cpp kepler, kepler_vallado"), ("angle reduction", "src/astrodynamics/kepler.cpp arg02pi")],
  H("kepler_eq.cpp", opts=dict(siplip=True), ends=True))

P("A02", "Perifocal and equatorial frames are related by one exact rotation",
  "For all node, inclination and pericenter angles the perifocal-to-equatorial matrix is Rz(-node)Rx(-incl)Rz(-argp); converting a state to the other frame and back returns it, and lengths and angles are preserved. "
  "Vector and state variants agree.",
  ["inputs"], "all angles and all state vectors", "no test covers the rotations; a wrong element shows only for generic angles",
  ["src/astrodynamics/perifocal.cpp"], [("matrix and its transpose", "src/astrodynamics/perifocal.cpp")],
  H("kepler_orbit.cpp", "rotation"))

P("A03", "Propagated Keplerian states obey the two-body equations of motion",
  "For all bound elements, gravity constants and times the propagated distance is a(1-e cosE), the time derivative of position is the returned velocity, and that of velocity is -GM r/|r|^3. "
  "Every route from elements to a state (direct, via the perifocal frame, vector form) gives the same state, with pericenter on the first perifocal axis.",
  ["inputs"], "all elliptic elements with sin(i)>0, all GM>0, all times", "no test propagates an orbit; errors in one term show only off special geometries",
  ["src/astrodynamics/propagate_state.cpp", "src/astrodynamics/state2kepler.cpp", "src/astrodynamics/perifocal.cpp"],
  [("propagate_state", "src/astrodynamics/propagate_state.cpp"), ("elements2state", "src/astrodynamics/state2kepler.cpp"), ("elements2perifocal", "src/astrodynamics/perifocal.cpp")],
  H("kepler_orbit.cpp", ".*newton|agreement"),
  assumptions=["the Kepler solver returns the exact solution of E - e sin E = M (its own property is A01)"])

P("A04", "Orbital elements computed from a state describe that state's orbit",
  "For every bound non-circular inclined state, each state-to-elements conversion returns the vis-viva semimajor axis (or the angular momentum), the eccentricity, the inclination and node of the orbit pole, and the pericenter and anomaly angles in the right quadrant. "
  "The mean anomaly is E - e sinE, and the variants agree.",
  ["inputs"], "all bound states with non-zero angular momentum and sin(i)>0, eccentricity above 0, all GM>0",
  "no test converts a state; a quadrant or scale error shows only in part of the orbits",
  ["src/astrodynamics/state2kepler.cpp"], [("state2elements (two forms), state2kepler and its two alternatives", "src/astrodynamics/state2kepler.cpp")],
  H("state2ele.cpp"),
  assumptions=["every state with non-zero angular momentum is R u, vr u + vt w for an orbit plane given by node, inclination and argument of latitude, vt > 0 (the harness builds the state that way)"])

P("A05", "State partials and transition matrices are exact derivatives of the orbit",
  "The partials of the propagated state with respect to the six orbital elements are its exact derivatives for all elements and times. The state transition matrix obeys the chain rule: identity at the epoch, and at any other time the partials at that time composed with the inverse partials at the epoch.",
  ["inputs"], "all elliptic elements with sin(i)>0, all GM>0, all times", "no test differentiates the orbit; each of the 36 entries must be right for every orbit",
  ["src/astrodynamics/state_partials.cpp", "src/astrodynamics/propagate_state.cpp"],
  [("state_partials", "src/astrodynamics/state_partials.cpp"), ("state transition matrix", "src/astrodynamics/propagate_state.cpp")],
  [H("kepler_orbit.cpp", "partials"), H("kepler_stm.cpp"), H("kepler_lin.cpp")],
  assumptions=["the Kepler solver returns the exact solution of E - e sin E = M (property A01)", "the elements of the epoch state are those of state2elements (property A04)"])

P("G01", "Solid harmonics V, W follow their defining recursion everywhere",
  "For every position outside the origin and every degree and order, each V(n,m), W(n,m) computed is the exterior solid harmonic given by the standard recursions, each element is computed from elements already computed, no element outside the matrices is touched, all are filled, and an order above the degree is refused. "
  "The variants agree.",
  ["inputs"], "all positions, all degrees up to 20000 and orders up to the degree", "no test evaluates the recursion; an indexing or coefficient error shows only at some degree and order",
  ["src/gravity/lagrange_poly.cpp", "var/icgem/src/lagrange_poly.cpp"],
  [("the recursions", "src/gravity/lagrange_poly.cpp lagrange_polynomials"), ("older copy", "var/icgem/src/lagrange_poly.cpp")],
  [H("lagrange.cpp", "solid_harmonics$"), H("lagrange.cpp", "solid_harmonics$", flags=["-DVC_ICGEM"]), H("lagrange.cpp", "solid_harmonics_rowwise", flags=["-DVC_DEBUG_VARIANT"])],
  assumptions=["an element of the storage is a memory cell of its own, in range for 0<=col<=row<rows, col<cols (property M01)"])

P("G02", "Gravity acceleration and gradient are those of the harmonic potential",
  "For every degree, order, position and coefficient set the acceleration is the gradient, and the partials matrix the full symmetric Hessian, of (GM/Re) sum of C V + S W over the selected degrees and orders. "
  "Coefficients above the order have no effect, no harmonic outside the matrices is used, also without assertions, and the variants agree.",
  ["inputs"], "all degrees up to 20000, all orders up to the degree, all coefficient values, all positions", "no test evaluates the acceleration; each term must be right at every degree and order",
  ["src/gravity/gravity_acceleration.cpp", "src/egravity.hpp", "var/icgem/src/gravity_acceleration.cpp"],
  [("acceleration and partials sums", "src/gravity/gravity_acceleration.cpp grav_potential_accel"), ("forms computing the harmonics", "src/egravity.hpp")],
  [H("gravacc.cpp", "acceleration|no_coefficients.*|gradient|from_position.*|cunningham"),
   H("gravacc.cpp", "from_position$", flags=["-DNDEBUG"]),
   H("gravacc.cpp", "acceleration|no_coefficients$", flags=["-DVC_ICGEM"])],
  assumptions=["solid harmonics differentiate into solid harmonics of the next degree by Cunningham's relations (discharged from the defining recursions up to degree 3, and checked natively by differences up to degree 12; not proved for every degree)",
               "V, W hold the solid harmonics (property G01) and the coefficients their own cells (properties M01, M02)"])

P("G03", "Third-body acceleration and its partials derive from one potential",
  "For all satellite and body positions the point-mass acceleration is the gradient of GM (1/|d| - r.s/|s|^3), vanishes at the origin, is the same in every variant, and the returned partials are its exact derivatives with respect to the satellite position.",
  ["inputs"], "all positions with the body away from satellite and origin, all GM", "no test evaluates it; a wrong partial shows only in orbit adjustment",
  ["src/gravity/point_mass_acceleration.cpp", "src/egravity.hpp"],
  [("acceleration, partials", "src/gravity/point_mass_acceleration.cpp point_mass_accel"), ("vector form", "src/egravity.hpp point_mass_accel")],
  H("pointmass.cpp"))

P("D01", "Drag opposes the velocity relative to the rotating atmosphere",
  "For every state, area, mass, coefficient and density the drag acceleration is -1/2 CD (A/m) rho |w| w with w = v - omega x r; the form given the celestial-to-date matrix yields that vector rotated to the celestial frame. "
  "The partials with respect to position (through any density gradient), velocity and drag coefficient are its exact derivatives, and the forms agree.",
  ["inputs"], "all positions, velocities, rotations, densities and density gradients", "no test evaluates drag; a wrong partial shows only in orbit adjustment",
  ["src/astrodynamics/drag.cpp"], [("acceleration, three forms; partials", "src/astrodynamics/drag.cpp drag_accel")],
  H("forces.cpp", "drag.*"))

P("D02", "Solar radiation pressure and its partials follow one inverse-square law",
  "For every satellite and Sun position the acceleration points away from the Sun with magnitude C (A/m) P0 (AU/d)^2; the partials with respect to satellite position and radiation coefficient are its exact derivatives, and both forms agree.",
  ["inputs"], "all positions with satellite and Sun apart, all coefficients", "no test evaluates it",
  ["src/astrodynamics/solar_radiation.cpp"], [("acceleration and partials", "src/astrodynamics/solar_radiation.cpp solar_radiation_acceleration")],
  H("forces.cpp", "srp.*"))

P("D03", "Eclipse models report shadow exactly inside the shadow's geometry",
  "For every satellite and Sun position: the cylindrical models report darkness exactly behind the Earth within one Earth radius of the Sun-Earth line (one with the Earth flattened); the two-cone model reports full light outside the penumbra, one half inside it and none in the umbra. "
  "The apparent-disc model gives 1 when the discs are apart, 0 when the Sun is covered, and in between the uncovered fraction, between 0 and 1.",
  ["inputs"], "all satellite and Sun positions (the two-cone model: one millimetre away from a cone boundary)", "no test evaluates a shadow; the penumbra is a narrow region",
  ["src/astrodynamics/occultation.cpp"], [("five shadow functions", "src/astrodynamics/occultation.cpp")],
  H("shadow.cpp"))

P("D04", "The exponential atmosphere is continuous and decays with height everywhere",
  "For every height above the ground the modelled density is positive and strictly decreasing, equals the nominal density at each layer bound, is continuous across the bounds within half a percent, and inside a layer decays at the rate that joins the nominal densities at its two bounds.",
  ["inputs"], "all heights up to 5000 km", "no test compares densities; one wrong table entry shows in one layer only",
  ["src/atmosphere/exponential_atmospheric_model.cpp"], [("layer table and density", "src/atmosphere/exponential_atmospheric_model.cpp density")],
  H("expatm.cpp"))

P("D05", "Right ascension and declination point back at the position",
  "For every non-zero position, also in meridian planes and at the poles, the right ascension lies between 0 and 2 pi, the declination between -pi/2 and pi/2, and the direction they define times the distance is the position.",
  ["inputs"], "all positions off the polar axis (the axis itself is sampled natively)", "the one sample program prints a single position",
  ["src/astrodynamics/pos2ra.cpp"], [("angles", "src/astrodynamics/pos2ra.cpp pos2ad")],
  [H("sky.cpp"), H("sky.cpp", flags=["-DBRANCHLESS"])])

P("D06", "Clock and ionosphere corrections follow the DORIS observation equation",
  "For every position and velocity the relativistic term is (U + V^2/2)/c with U the central potential, or that with the J2 zonal term at the given latitude; both forms agree for J2 = 0. "
  "Whatever the range and the electron content, the 2 GHz carrier corrected with the 400 MHz one contains no delay falling with the squared frequency, and the range unchanged.",
  ["inputs"], "all positions, velocities, gravity constants, ranges and electron contents", "no test evaluates either correction",
  ["src/relativity/relativistic_clock_correction.cpp", "src/doris_observation_equations.hpp"],
  [("clock correction", "src/relativity/relativistic_clock_correction.cpp relativistic_clock_correction"), ("carrier correction", "src/doris_observation_equations.hpp carrier_iono_correction")],
  H("clock.cpp"), assumptions=["car2ell of the geodesy library returns the latitude"])

P("S02", "Antenna phase corrections interpolate the published phase laws",
  "For every zenith angle from zenith to horizon, both included, the 2 GHz phase correction of each ground antenna is the published phase law interpolated linearly between the 5 degree steps; other angles are reported as out of bounds with value 0. "
  "The phase centre offsets are the published ones and the ionosphere-free phase centre is their ionosphere-free combination, for each antenna type.",
  ["inputs"], "all zenith angles, all antenna types", "no test evaluates a phase law; the horizon and the out-of-bounds report need an exact bound",
  ["src/antenna_pcv.hpp", "src/doris_system_info.hpp", "src/doris/doris_system_info.cpp"],
  [("phase laws", "src/antenna_pcv.hpp AntennaOffsetTraits::pcv"), ("ionosphere-free centre", "src/doris_system_info.hpp BeaconStation::iono_free_phase_center")],
  H("antenna.cpp"))

P("S01", "Observation codes, beacon frequencies and station records are read as defined",
  "Exactly the seven DORIS observation letters and types exist and map one to one; a code keeps its type and its frequency 1 or 2 where the type has one (0 otherwise), and any other frequency is refused. "
  "For every shift factor the beacon frequencies are those of the DORIS definition. Every station record of 60 or more characters yields the fields of the defined columns, whatever errors happened before.",
  ["inputs", "histories"], "all types, letters, frequency numbers, shift factors; all record lines", "no test reads a station record or observation code",
  ["src/doris_system_info.hpp", "src/doris/doris_system_info.cpp"],
  [("codes", "src/doris/doris_system_info.cpp ObservationCode, char_to_observationType"), ("frequencies", "src/doris_system_info.hpp beacon_nominal_frequency"), ("station records", "src/doris/doris_system_info.cpp BeaconStation::set_from_rinex_line")],
  H("system.cpp", opts=dict(unroll="H_record_(name|domes)")), assumptions=["strtol reads the number at its argument and reports where it ends"])

_RKF = dict(ends=True, keep=["RKF45::rkfs", "RKF45::fehl"], opts=dict(inv="RKF45::rkfs", cut="RKF45::rkfs", merge=True), budget=480)
P("I01", "Runge-Kutta-Fehlberg steps follow the scheme, the tolerance and the limits",
  "For every right-hand side, dimension, state and interval, in both directions: one step evaluates the Fehlberg stages and returns the fifth order solution. "
  "The driver never evaluates outside the interval; each step starts from the accepted solution and its derivative and does not pass the end; a step is accepted only if every component's error estimate meets the tolerance; "
  "steps grow at most 5 times, shrink at most 10 times, never grow after a failure; evaluations are counted and limited; success means the end is reached with the last accepted solution.",
  ["inputs", "histories"], "all right-hand sides (arbitrary functions), 1 to 1000 equations, all intervals, tolerances and step sequences", "the example program integrates four smooth problems and compares nothing",
  ["var/ode_solvers/rkf45_fehl.cpp", "var/ode_solvers/rkf45_rkfs.cpp"],
  [("one step", "var/ode_solvers/rkf45_fehl.cpp fehl"), ("driver", "var/ode_solvers/rkf45_rkfs.cpp rkfs")],
  [H("rkf45.cpp", "fehlberg_step", flags=["-DEIGEN_DONT_VECTORIZE"]),
   H("rkf45.cpp", "driver", flags=["-DEIGEN_DONT_VECTORIZE", "-DVC_DRIVER"], **_RKF),
   H("rkf45.cpp", "driver_backward", flags=["-DEIGEN_DONT_VECTORIZE", "-DVC_DRIVER", "-DVC_BACKWARD"], **_RKF)],
  assumptions=["pow is increasing in its base"])

P("E01", "Earth-orientation tables keep each quantity of each epoch, through copies",
  "In an Earth-orientation table of any capacity and size each quantity (epoch, pole coordinates, UT1, celestial pole offsets, length of day, rotation rate) of each row keeps the last value written and no write changes another. "
  "Resizing gives the requested size; copies hold all rows and are independent, moves hand the rows over, moved or shrunk tables can be copied, and every block is freed exactly once.",
  ["inputs", "configurations", "histories"], "all capacities and sizes up to 10000, all rows, quantities and values; sequences of resize, copy, move, assign",
  "no test touches the tables; a copy must be complete for every size and spare capacity",
  ["src/eop.hpp"], [("columns in one block", "src/eop.hpp EopLookUpTable"), ("copy/move/resize", "src/eop.hpp EopLookUpTable")],
  H("eop.cpp", "columns|copies|moves"))

P("E02", "Earth-orientation parameters at an epoch come from their own columns plus tides",
  "At every epoch and order each Earth-orientation parameter is the Lagrangian interpolation of its own column over all rows, UT1 and length of day with the zonal and ocean tide effects added, the pole with ocean tides and libration, at the epoch in Julian centuries; "
  "when the interpolation of any of them fails, failure is reported. Regularising a table takes the zonal tides out of UT1, length of day and rotation rate of every row at its own epoch and leaves everything else.",
  ["inputs", "configurations", "faults"], "all tables, epochs, orders and failing interpolations; tide models as arbitrary functions", "no test interpolates Earth-orientation parameters; a swapped column or a lost failure is invisible in samples",
  ["src/iers/eop_interpolate.cpp", "src/eop.hpp"], [("interpolation", "src/iers/eop_interpolate.cpp EopLookUpTable::interpolate"), ("regularisation", "src/iers/eop_interpolate.cpp EopLookUpTable::regularize")],
  H("eop.cpp", "interpolate|regularize"), assumptions=["the external Lagrangian interpolation and tide models are functions of their arguments"])

P("K01", "Every filter parameter has its own place and takes its own a-priori value",
  "For every number of beacons and both beacon clock models, each beacon's wet delay and frequency offset (and drift) has a place of its own among the filter parameters, after the satellite state and the force parameters, and there are no others. "
  "A-priori values and uncertainties given to one beacon, or to all of them, reach exactly the parameters of those, and the offset at an epoch is the offset plus the drift times the time since the reference epoch.",
  ["inputs", "configurations"], "all numbers of beacons up to 60, all beacons, values and epochs", "no test builds a filter; an index off by a stride shows up only with several beacons",
  ["src/filters/filters.hpp", "src/filters/ekf.hpp"], [("indices", "src/filters/filters.hpp EkfFilter::tropo_index, rfoff_index"), ("a-priori setters", "src/filters/filters.hpp EkfFilter::set_*_apriori*")],
  H("filter.cpp", flags=["-DEIGEN_DONT_VECTORIZE"]))

P("K02", "Clock models evaluate their polynomial and own their coefficients",
  "A linear model is its offset plus its drift times the distance from the reference; a polynomial model of any order is the sum of its coefficients times the powers of that distance, which for epochs is counted in seconds. "
  "Copies are independent, moves hand the coefficients over, self-assignment is harmless, resizing gives the new order, and every block is freed exactly once.",
  ["inputs", "configurations", "histories"], "all orders up to 200, all coefficients, references and arguments; sequences of copy, move, assign, resize", "no test evaluates or copies a model",
  ["src/filters/models.hpp"], [("evaluation", "src/filters/models.hpp PolynomialModel::value_at"), ("ownership", "src/filters/models.hpp PolynomialModel")],
  H("models.cpp"))
