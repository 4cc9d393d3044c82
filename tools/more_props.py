NB = "Checker for this property is still being built (see DESIGN.md)."
HEY = "needs heyoka (Taylor integrator JIT), which is not installed here: the code that decides the property neither compiles nor can be encoded in this sandbox"
LP = ["src/lambert_problem.cpp", "include/kep3/lambert_problem.hpp"]
prop("C13", "Every Lambert solution joins the two positions in exactly the given time",
 "For every two non-collinear positions, time of flight > 0, mu > 0 and direction (clockwise or not), each pair of velocities returned by the Lambert solver is such that the Keplerian motion from r0 with v0 is at r1 with velocity v1 after exactly the time of flight, going round in the requested direction, and having completed the number of full revolutions that its position in the solution list stands for.",
 ["inputs"], "every pair of non-collinear positions, every time of flight and mu > 0, both directions, every revolution number",
 SAMPLED + "the residual is checked on random geometry only up to a tolerance.",
 LP, [("terminal velocities from x", "src/lambert_problem.cpp:lambert_problem"), ("time equation", "src/lambert_problem.cpp:x2tof")], claim=True)
prop("C14", "The Lambert solver rejects invalid problems with an exception",
 "A non-positive time of flight, a non-positive gravitational parameter, and collinear positions or positions whose plane gives no defined direction of motion are rejected with an exception; no solver object with NaN or meaningless velocities is ever returned, and valid problems are never rejected.",
 ["inputs"], "every input of the constructor", "Only one or two rejected inputs are tested.",
 LP, [("input checks", "src/lambert_problem.cpp:lambert_problem")], claim=True)
prop("C15", "Lambert returns exactly the existing solutions up to the requested revolutions",
 "The number of revolutions solved for is the smaller of the requested maximum and the largest number for which solutions exist at this time of flight; there are exactly 2*Nmax+1 solutions and all result vectors have that length, ordered 0, then left/right pairs of increasing revolution number.",
 ["inputs", "configurations"], "every geometry, time of flight and requested number of revolutions", "Sizes are only tested on random samples.",
 LP, [("Nmax detection", "src/lambert_problem.cpp:lambert_problem")], claim=True)
prop("C16", "The Lambert time equation and its derivatives are exact on every branch",
 "The time of flight as a function of the free parameter x is the same function in every formula used (Lagrange, Lancaster, Battin), and the first, second and third derivative used by the root finder are its exact derivatives, for elliptic and hyperbolic x and any revolution number.",
 ["inputs"], "every x > -1, lambda in (-1, 1), every revolution number", "No test evaluates these functions.",
 LP, [("x2tof, x2tof2, dTdx, hypergeometricF", "src/lambert_problem.cpp")], claim=True)
SF = ["src/leg/sims_flanagan.cpp", "include/kep3/leg/sims_flanagan.hpp"]
prop("C17", "Sims-Flanagan mismatch constraints are the defined two-sided shooting defect",
 "For any number of segments, cut, throttles, spacecraft parameters and boundary states, the mismatch constraints equal forward-propagated minus backward-propagated state and mass at the match point: impulses of throttle * Tmax * dt / m at segment midpoints, Keplerian arcs between, and mass following the rocket equation.",
 ["inputs", "configurations"], "every boundary state, throttle, parameter, number of segments and cut in [0, 1]", "Zero mismatch is tested for a few ballistic legs and one numeric case.",
 SF, [("compute_mismatch_constraints", "src/leg/sims_flanagan.cpp:compute_mismatch_constraints")], claim=True)
prop("C18", "Sims-Flanagan mismatch gradient is the exact Jacobian of the mismatch",
 "The returned gradients of the mismatch constraints are the exact partial derivatives with respect to the initial state and mass, the final state and mass, the throttles and the time of flight, in the documented order and shape, and they are finite also where a throttle is null (the throttle norm then counts with a zero subgradient).",
 ["inputs", "configurations"], "every leg, segment number and cut", "Numerical differences on a few random legs.",
 SF, [("compute_mc_grad, gradients_multiple_impulses", "src/leg/sims_flanagan.cpp")], claim=True)
prop("C19", "Throttle constraints and their gradient are exact",
 "Each throttle constraint is |u|^2 - 1 of its own segment, so it is satisfied (<= 0) exactly when the throttle magnitude does not exceed one, and the gradient returned is its exact Jacobian, zero outside the segment's own block.",
 ["inputs", "configurations"], "every throttle vector and number of segments", "Tested on one or two vectors.",
 SF, [("compute_throttle_constraints, compute_tc_grad", "src/leg/sims_flanagan.cpp")], claim=True)
prop("C20", "A Sims-Flanagan leg never holds invalid data and its setters take effect",
 "Construction and every setter (including set) reject, with an exception, a negative time of flight, maximum thrust, specific impulse or mu, a cut outside [0, 1] and throttles that are empty or not a multiple of three in number, and accept everything else; a rejected setter leaves the leg as it was, and a successful one changes exactly the quantities it names, with the forward and backward segment counts following the throttles and the cut.",
 ["inputs", "histories"], "every value and every sequence of setter calls", "A handful of bad values on the constructor.",
 SF + ["src/leg/sf_checks.cpp", "include/kep3/leg/sf_checks.hpp"], [("sanity checks", "src/leg/sf_checks.cpp"), ("setters", "src/leg/sims_flanagan.cpp")], claim=True)
prop("C21", "Epochs represent time points exactly and in order",
 "An epoch built from a julian day, modified julian day, mjd2000 or calendar string/date reports back the same instant in every representation to within a microsecond, adding or subtracting a duration shifts it by exactly that duration, comparisons follow the order of the instants, calendar arithmetic is Gregorian, a duration counts from 0 MJD2000, and dates or strings that are out of range or malformed in length are rejected.",
 ["inputs", "histories"], "every representable date", "A few dates are tested, and the epoch sources do not build in this sandbox's configuration.",
 ["src/epoch.cpp", "include/kep3/epoch.hpp"], [("epoch conversions", "src/epoch.cpp")], claim=True)
prop("C22", "Fly-by constraints, delta-v and outgoing velocity follow the patched-conic model",
 "The unpowered fly-by constraints are the difference of squared relative speeds and the excess of the required turn over the largest turn the planet allows at its safe radius; the fly-by delta-v is the minimal impulse at infinity that realises the transfer; the outgoing velocity has the incoming relative speed, turned by the angle of the given periapsis radius in the plane given by beta.",
 ["inputs"], "every pair of velocities, planet parameters, radius and angle", "A few constants are tested, and the fly-by sources do not build in this sandbox's configuration.",
 ["src/core_astro/flyby.cpp"], [("fb_con, fb_dv, fb_vout", "src/core_astro/flyby.cpp")], claim=True)
prop("C24", "A Keplerian planet moves on its orbit from its reference epoch, consistently",
 "A planet defined by reference elements (with true or mean anomaly, or equinoctial in either frame) or by a state at a reference epoch has, at any other epoch and however it is asked (days, epoch, list of epochs, body or planet interface), the position and velocity of the unperturbed Keplerian motion; the elements it reports in each type are those of its orbit, its period is 2 pi sqrt(a^3/mu) for ellipses and NaN for hyperbolas, its parameters are kept, elements with a semi-major axis of the wrong sign are refused, and a mean anomaly is refused for hyperbolas only.",
 ["inputs", "configurations"], "every valid orbit, every type of elements in and out, every reference and query epoch", "A few constants are tested, and the planet sources do not build in this sandbox's configuration.",
 ["src/udpla/keplerian.cpp", "src/planet.cpp", "include/kep3/planet.hpp"], [("keplerian::keplerian, eph, elements, period", "src/udpla/keplerian.cpp"), ("planet interface", "include/kep3/planet.hpp")], claim=True)
prop("C25", "Propagating over a grid of times equals propagating to each of the times",
 "propagate_lagrangian_v returns exactly one entry per requested time, in order: the state (and, exactly when asked for, the state transition matrix) that propagate_lagrangian gives for that time from the same initial state, whatever the number, sign, order or repetition of the times.",
 ["inputs"], "every state and every list of times (up to the stated length)", "One random grid.",
 ["src/core_astro/propagate_lagrangian.cpp"], [("propagate_lagrangian_v", "src/core_astro/propagate_lagrangian.cpp")], claim=True)
HF = ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp"]
NB = "The high-fidelity sources do not build in this sandbox's configuration; where they do, a few legs are sampled against numerical differences."
prop("C26", "High-fidelity leg gradients are exact Jacobians of its mismatch",
 "The gradients of the high-fidelity leg's mismatch constraints are the exact partial derivatives with respect to the initial state and mass, the final state and mass, every throttle and the time of flight, in the documented order and shape.",
 ["inputs", "configurations"], "every leg, every number of segments and cut within the stated bounds", NB, HF, [("compute_mc_grad, compute_all_gradients", "src/leg/sims_flanagan_hf.cpp")], claim=True)
prop("C27", "High-fidelity leg mismatch equals integrated thrust-perturbed dynamics",
 "The high-fidelity leg's mismatch constraints equal the difference of the states reached at the match point by the thrust-perturbed dynamics from the initial state forward and from the final state backward, each segment using its own constant thrust and an equal share of the time of flight; its throttle constraints are |u|^2-1 per segment with their exact gradient, and the state history passes through the same trajectory at the grid points of every segment.",
 ["inputs", "configurations"], "every leg, every number of segments and cut within the stated bounds", NB, HF, [("compute_mismatch_constraints, get_state_history, throttle constraints", "src/leg/sims_flanagan_hf.cpp")], claim=True)
prop("C28", "Low-precision planets follow JPL's published mean elements over 1800-2050",
 "Each of the eight major planets of the low-precision ephemerides, found by its name in any case, has at every epoch between 1800 and 2050 the elements (in every type) and the state given by JPL's published mean elements and linear rates per Julian century from J2000 and Kepler's equation, about the Sun; its gravitational parameter, radius and safe radius are its own; epochs outside those years and unknown names are refused with an exception.",
 ["inputs", "configurations"], "all eight planets at every epoch", "Some tests look at single planets and epochs, and the sources do not build in this sandbox's configuration.",
 ["src/udpla/jpl_lp.cpp"], [("jpl_lp constructor, _f_elements, eph, elements", "src/udpla/jpl_lp.cpp")], claim=True)
prop("C29", "What a planet does not provide is derived from its ephemeris or refused",
 "For a user-defined planet that gives only an ephemeris and a central body, the period and the elements of every type are those of the osculating orbit at the epoch asked for (NaN period and no mean anomaly for hyperbolas, whatever the units); without a central body they are refused as not implemented and the missing parameters read -1; lists of epochs give the ephemeris of each in order; epochs may be given as days or as an epoch alike; anything the user does provide is passed through untouched.",
 ["inputs", "configurations"], "every state, every combination of provided methods in the harness, every epoch", "A few constants; not built in this sandbox's configuration.",
 ["src/planet.cpp", "include/kep3/planet.hpp"], [("period_from_energy, elements_from_posvel", "src/planet.cpp"), ("default_eph_vectorization and planet interface", "include/kep3/planet.hpp")], claim=True)
prop("C30", "A high-fidelity leg never holds invalid data and its setters take effect",
 "Construction and every setter of the high-fidelity leg (including set) reject invalid data with an exception and leave the leg as it was; a successful setter changes exactly what it names, and everything computed afterwards (mismatch, gradients, thrusts, integrator parameters) is what a leg freshly built from the new data would give; a chromosome given to the leg is set in the documented order and yields its constraints.",
 ["inputs", "histories"], "every value and every setter after a previous use of the leg", NB, HF, [("constructors, setters, set", "src/leg/sims_flanagan_hf.cpp")], claim=True)
TA = ["src/ta/stark.cpp", "src/ta/cr3bp.cpp", "include/kep3/ta/stark.hpp", "include/kep3/ta/cr3bp.hpp"]
NT = "The sources using the Taylor integrators do not build in this sandbox's configuration; where they do, a few values are sampled."
prop("C31", "The Stark problem propagates the constant-thrust dynamics and its variations",
 "Propagating a Stark problem gives the state after the requested time of the two-body dynamics with a constant inertial thrust and the matching mass flow, the variational form gives besides the derivatives of that state with respect to the initial state and to the thrust in the documented shape, getters and setters report and change exactly the named parameters, a vanishing mass is refused, and a call never depends on the calls made before it.",
 ["inputs", "histories"], "every state, non-zero thrust, time and parameter, after any previous use", NT, ["src/stark_problem.cpp", "include/kep3/stark_problem.hpp"],
 [("propagate, propagate_var, setters", "src/stark_problem.cpp")], claim=True)
prop("C32", "The integrators are built on the exact Stark and CR3BP dynamics",
 "The right-hand sides handed to the Taylor integrators are, term by term, the two-body problem with constant inertial thrust and mass flow, and the circular restricted three-body problem in the rotating frame; the variational integrators carry the same dynamics, vary the documented quantities and start from the identity; and the integrator obtained for a tolerance has that tolerance, the same on every call, with one cached integrator per tolerance.",
 ["inputs", "histories"], "every state and parameter value; every pattern of tolerances within the stated number of calls", NT, TA, [("stark_dyn, cr3bp_dyn, get_ta_*", "src/ta")], claim=True)
prop("C33", "An object restored from an archive equals the one that was saved",
 "A Lambert problem, Sims-Flanagan leg, high-fidelity leg, Stark problem, epoch, Keplerian or low-precision planet that is saved to an archive and loaded into another object gives there the same parameters and the same results of every query as the original, whatever that other object held before.",
 ["inputs", "configurations"], "every object of these types within the stated sizes", "Tests compare the printed form of a few default objects.",
 ["include/kep3/lambert_problem.hpp", "include/kep3/leg/sims_flanagan.hpp", "include/kep3/leg/sims_flanagan_hf.hpp", "include/kep3/stark_problem.hpp", "include/kep3/epoch.hpp", "include/kep3/udpla/keplerian.hpp", "include/kep3/udpla/jpl_lp.hpp"],
 [("serialize", "include/kep3")], claim=True)
prop("C34", "Integrator caches are safe to use from several threads",
 "Any two calls that obtain a Taylor integrator or read the size of an integrator cache may run in different threads at the same time: no schedule of them has a data race on a cache or deadlocks, and each call returns what it would return alone.",
 ["schedules", "histories"], "every pair of calls, every interleaving of their accesses, caches holding 0 to 3 integrators", "Tests are single-threaded.", TA, [("get_ta_* and cache sizes", "src/ta")], claim=True)
PYT = "symbolic execution of the real Python functions on symbolic reals (every comparison a decision of the executor, the compiled core replaced by uninterpreted functions with its verified contracts); obligations decided by exact algebra + z3 (QF_NRA), counterexamples replayed by running the Python code on numbers"
NP = "The Python modules cannot be imported in this sandbox's configuration (no compiled core); where they can, one or two chromosomes are tried."
prop("C35", "Direct-method problems state the leg's constraints with exact gradients",
 "The direct low-thrust problems (point to point and planet to planet) map a chromosome within their bounds to the documented leg: the fitness is the mass objective followed by the leg's mismatch and throttle constraints (and the phasing/velocity quantities) in the documented scaling and order, the numbers of constraints and bounds match the chromosome, the declared sparsity covers every non-zero derivative, and the gradient is the exact Jacobian of the fitness in the order of the sparsity.",
 ["inputs", "configurations"], "every chromosome, planet ephemeris and problem data, numbers of segments within the stated bounds", NP,
 ["pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"], [("fitness, gradient, gradient_sparsity, get_bounds", "pykep/trajopt")], claim=True, technique=PYT)
prop("C36", "Multiple gravity assist problems cost and decode trajectories as documented",
 "The mga problem decodes the times of flight of each encoding (direct, alpha, eta) by its documented formula and its conversions between encodings preserve the trajectory and invert each other; its fitness is the launch excess over the free speed plus the fly-by delta-vs plus the arrival (or orbit insertion) delta-v of the Lambert arcs joining the planets at the decoded epochs, with the total time of flight as second objective when asked for; and its spacecraft planet is on the right ballistic arc at every epoch of the trajectory and refuses any other.",
 ["inputs", "configurations"], "every chromosome and problem data, numbers of legs within the stated bounds, the three encodings", NP,
 ["pykep/trajopt/_mga.py"], [("fitness, _compute_dvs, alpha2direct, direct2alpha, eta2direct, direct2eta, to_planet", "pykep/trajopt/_mga.py")], claim=True, technique=PYT)
prop("C37", "Python-defined planets and the gym problems are what they are said to be",
 "The TLE and SPICE planets give the state of their external propagator at the requested instant, in SI units and identically one by one and vectorised, with the documented time scales; planet_to_keplerian gives the Keplerian planet osculating the original one at the epoch asked for, with its parameters, and refuses an unknown central body; the rotation between frames is taken at the epoch given; and the Cassini problems of the gym are the published instances, described by their own sequence.",
 ["inputs", "configurations"], "every epoch and data", NP,
 ["pykep/udpla/_tle.py", "pykep/udpla/_spice.py", "pykep/utils/_planet_to_keplerian.py", "pykep/utils/_spice_utils.py", "pykep/trajopt/gym/_cassini_mga.py"],
 [("eph, eph_v", "pykep/udpla"), ("planet_to_keplerian", "pykep/utils/_planet_to_keplerian.py"), ("gym problems", "pykep/trajopt/gym/_cassini_mga.py")], claim=True, technique=PYT)
prop("C38", "Plots draw the trajectory itself",
 "What the plotting functions put on the axes is, in the requested units, the trajectory: ballistic arcs, Lambert arcs (the first solution from one end to the other in its direction of motion, clockwise ones too, the others as whole orbits), the arcs, grid points, midpoints and thrust arrows of Sims-Flanagan legs and high-fidelity legs whatever the split between forward and backward segments, planets and their orbits, and the plots of the optimisation problems made of them; and propagation by true anomaly differences is Kepler's motion.",
 ["inputs", "configurations"], "every state, direction, throttle and parameter; numbers of points and segments within the stated bounds", "Plots are not tested.",
 ["pykep/plot/__init__.py", "pykep/plot/_lambert.py", "pykep/plot/_ballistic.py", "pykep/plot/_planet.py", "pykep/plot/_sf_leg.py", "pykep/trajopt/_mga.py", "pykep/trajopt/_direct_pl2pl.py", "pykep/trajopt/_direct_point2point.py"], [("add_*", "pykep/plot"), ("propagate_lagrangian_theta_v", "pykep/plot/__init__.py")], claim=True, technique=PYT)
