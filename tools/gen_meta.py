#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both is this file)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, na=None, note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), claim=claim, na=na, note=note, technique=technique))
CA = "include/kep3/core_astro/"; SA = "src/core_astro/"
SAMPLED = "The tests compare a few thousand random samples (or a handful of constants) with a tolerance; "

prop("C01", "Mean anomaly to eccentric anomaly solves Kepler's equation for every ellipse",
 "For every eccentricity in [0, 1) and every real mean anomaly M, the returned eccentric anomaly E satisfies E - e sin E = M modulo full turns, and E lies in the documented range. If the iteration does not converge or the eccentricity is not elliptic, the result is NaN (or an exception), never a plausible wrong number.",
 ["inputs"], "every eccentricity 0 <= e < 1 and every real mean anomaly, including the wrap-around points",
 SAMPLED + "no sample decides quadrant wrap, large |M| or the search interval for every (e, M).",
 [CA + "convert_anomalies.hpp"], [("Newton search of m2e", CA + "convert_anomalies.hpp:m2e")])
prop("C02", "Elliptic eccentric, true and mean anomaly conversions are mutually consistent",
 "For every 0 <= e < 1 the conversions between eccentric, true and mean anomaly represent the same point on the ellipse: (cos f, sin f) follow from E by the geometry of the ellipse and back, E - e sin E = M, and every composition of a conversion with its inverse is the identity modulo full turns.",
 ["inputs"], "every eccentricity in [0, 1) and every angle",
 SAMPLED + "they only check round trips in the loop, where two opposite mistakes cancel.",
 [CA + "convert_anomalies.hpp"], [("e2f, f2e, m2f, f2m, e2m", CA + "convert_anomalies.hpp")])
prop("C03", "Hyperbolic and Gudermannian anomaly conversions are mutually consistent",
 "For every e > 1 the conversions among mean hyperbolic, hyperbolic, true and Gudermannian anomalies represent the same point on the hyperbola: N = e sinh H - H, true anomaly from H and from the Gudermannian zeta agree with the geometry of the hyperbola, and each conversion is undone by its inverse.",
 ["inputs"], "every eccentricity e > 1 and every anomaly inside the asymptotes",
 SAMPLED + "most of these functions are only exercised as round trips.",
 [CA + "convert_anomalies.hpp"], [("n2h, h2f, f2h, zeta2f, f2zeta, h2n, n2f, f2n", CA + "convert_anomalies.hpp")])
prop("C04", "Kepler equation functions are correct and their derivative functions exact",
 "The functions for Kepler's equation in the eccentric anomaly, in the anomaly differences (elliptic, hyperbolic) and in the universal anomaly compute the textbook equations, each first (second) derivative function equals the exact derivative of the function it belongs to, and the Stumpff functions satisfy their definitions, for every argument.",
 ["inputs"], "every real argument of every Kepler equation function and derivative function, on both sides of every branch",
 "No test calls the derivative functions directly; a wrong derivative only slows the root finder down or makes it fail on rare inputs.",
 [CA + "kepler_equations.hpp", CA + "special_functions.hpp"], [("kepE, kepDE, kepDH, kepDS and derivatives", CA + "kepler_equations.hpp"), ("stumpff_s, stumpff_c", CA + "special_functions.hpp")])
prop("C05", "Lagrangian propagation is the Keplerian flow",
 "For every non-degenerate elliptic or hyperbolic state, every time of flight of either sign and every mu > 0, propagate_lagrangian returns the solution of r'' = -mu r/|r|^3 from that state: at time zero it is the identity, its time derivative is the returned velocity and the returned velocity's derivative is the gravity acceleration. It never silently returns a state when its anomaly search failed.",
 ["inputs"], "every position, velocity, time of flight (positive, negative, zero, many revolutions) and mu > 0, elliptic and hyperbolic",
 SAMPLED + "the tests compare forward with backward propagation, where sign and branch errors cancel, and only in a narrow range of scales.",
 [SA + "propagate_lagrangian.cpp", CA + "propagate_lagrangian.hpp", CA + "kepler_equations.hpp"], [("anomaly difference search and Lagrange coefficients", SA + "propagate_lagrangian.cpp:propagate_lagrangian")])
prop("C06", "Universal variable propagation is the Keplerian flow, in any units",
 "For every elliptic or hyperbolic state, every time of flight of either sign and every mu > 0, propagate_lagrangian_u returns the solution of r'' = -mu r/|r|^3 from that state, whatever length and time units the caller uses.",
 ["inputs"], "every position, velocity, time of flight and mu > 0 in any consistent units",
 SAMPLED + "only lengths of order one with mu = 1 are sampled.",
 [SA + "propagate_lagrangian.cpp", CA + "special_functions.hpp"], [("universal anomaly search", SA + "propagate_lagrangian.cpp:propagate_lagrangian_u")])
prop("C07", "Element based propagation is the Keplerian flow",
 "For every elliptic or hyperbolic state with non-zero eccentricity and inclination, every time of flight and every mu > 0, propagate_keplerian returns the solution of r'' = -mu r/|r|^3 from that state.",
 ["inputs"], "every state with defined classical elements, every time of flight of either sign, every mu > 0",
 SAMPLED + "the sampled times do not decide multi-revolution and backward propagation for every orbit.",
 [SA + "propagate_lagrangian.cpp", SA + "ic2par2ic.cpp", CA + "convert_anomalies.hpp"], [("propagate_keplerian", SA + "propagate_lagrangian.cpp:propagate_keplerian")])
prop("C08", "The propagator's state transition matrix is the Jacobian of the flow",
 "The 6x6 state transition matrix returned by propagate_lagrangian on request is, entry by entry (row: final component, column: initial component), the partial derivative of the returned final state with respect to the initial state; asking for it does not change the returned state, and not asking returns none.",
 ["inputs"], "every elliptic or hyperbolic state, time of flight and mu > 0, all 36 entries",
 "The tests compare against numerical differences on a few states with a loose tolerance.",
 [SA + "stm.cpp", SA + "propagate_lagrangian.cpp"], [("stm_lagrangian", SA + "stm.cpp:stm_lagrangian")])
prop("C09", "Reynolds' direct state transition matrix is the Jacobian of the Keplerian flow",
 "Given two states on the same Keplerian arc and the time between them, the directly computed (Reynolds) state transition matrix equals the Jacobian of the final state with respect to the initial state, in the same row/column convention as the propagator's matrix.",
 ["inputs"], "every non-degenerate arc, all 36 entries, any mu > 0",
 "The tests compare two matrices numerically on a few arcs.",
 [SA + "stm.cpp", SA + "propagate_lagrangian.cpp"], [("stm_reynolds, propagate_stm_reynolds", SA + "stm.cpp:stm_reynolds")])
prop("C10", "Cartesian state and classical orbital elements convert exactly both ways",
 "For every non-degenerate elliptic or hyperbolic state the computed (a, e, i, Omega, omega, f) are the orbit's elements, with angles in the right quadrant (also at nodes and apsides, never NaN), and converting elements to position and velocity gives the state with those elements; inconsistent elements (e >= 1 with a > 0, e < 1 with a < 0, true anomaly beyond the asymptote) are rejected with an exception.",
 ["inputs"], "every non-degenerate state and every set of valid or inconsistent elements, any mu > 0",
 SAMPLED + "round trips hide matching errors in the two directions, and nodes and apsides are never sampled exactly.",
 [SA + "ic2par2ic.cpp", CA + "ic2par2ic.hpp"], [("ic2par, par2ic", SA + "ic2par2ic.cpp")])
prop("C11", "Cartesian state and equinoctial elements convert exactly both ways",
 "For every non-degenerate elliptic or hyperbolic state the computed modified equinoctial elements (direct or retrograde frame) are the orbit's equinoctial elements by definition, and converting equinoctial elements to position and velocity gives the state that has these elements.",
 ["inputs"], "every state outside the singularity of the chosen frame, direct and retrograde, any mu > 0",
 SAMPLED + "only round trips are tested.",
 [SA + "ic2eq2ic.cpp", CA + "ic2eq2ic.hpp"], [("ic2eq, eq2ic", SA + "ic2eq2ic.cpp")])
prop("C12", "Classical and equinoctial elements convert exactly both ways",
 "For every valid set of classical elements the conversion to modified equinoctial elements (direct or retrograde) gives the values of their definition, and the conversion back recovers a, e, i and the angles modulo full turns; both agree with going through the Cartesian state.",
 ["inputs"], "every valid set of classical elements outside the frame's singularity, direct and retrograde",
 SAMPLED + "only round trips are tested.",
 [SA + "eq2par2eq.cpp", CA + "eq2par2eq.hpp"], [("par2eq, eq2par", SA + "eq2par2eq.cpp")])
exec(open(os.path.join(V, "tools", "more_props.py")).read())
prop("C23", "Julian date conversions are exact offsets and mutually inverse",
 "The conversions between JD, MJD and MJD2000 add or subtract exactly the defined epoch offsets (2400000.5, 2451544.5 and 51544 days), so any composition of them agrees with the direct conversion.",
 ["inputs"], "every real date",
 "Only a few constants are tested.",
 [CA + "convert_julian_dates.hpp"], [("conversions", CA + "convert_julian_dates.hpp")])

TECH = "symbolic execution of the LLVM IR of the real code over exact reals; obligations decided by exact algebra + z3 (QF_NRA), counterexamples replayed on the compiled code"
NOTE = ("Holds for every input of the stated families over exact real arithmetic, on every feasible path; floating point rounding is outside the claim "
        "(each reported counterexample is confirmed by running the compiled code against an independent oracle). Iterative root finders are replaced by their contract "
        "(a root of the function they are given inside the given interval) with obligations on the arguments they are given. Trusted: clang -O1, the IR translator (cross-checked on concrete runs), the exact algebra, z3.")
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in P:
    if p["claim"]:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                           technique=p["technique"] or TECH, level="other", level_note=(p["note"] + " " if p["note"] else "") + NOTE))
    else: na.append(dict(property=p["id"], reason=p["na"]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks compile /repo's sources with harnesses in /verif/harness."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
