"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""

import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/lamberthub/"
SOLVERS = [
    S + "p_solvers/gauss.py", S + "p_solvers/battin.py", S + "p_solvers/jiang.py", S + "p_solvers/pan.py",
    S + "universal_solvers/gooding.py", S + "universal_solvers/der.py", S + "series_solvers/thorne.py",
    S + "ecc_solvers/avanzini.py", S + "universal_solvers/arora.py", S + "universal_solvers/vallado.py",
    S + "universal_solvers/izzo.py", S + "universal_solvers/negrete.py", S + "universal_solvers/mcelreath.py",
    S + "regularization/delatorre.py",
]  # fmt: skip
MULTI = [f for f in SOLVERS if re.search("gooding|der|arora|izzo|negrete|mcelreath|delatorre", f)]
SINGLE = [f for f in SOLVERS if f not in MULTI]
UT = S + "utils/"

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level="model_checking"):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, level=level))


prop(
    "C01", "Direct transfers are solved by every solver",
    "Given positive mu, two non-collinear position vectors and a time of flight, every solver called with M=0 returns the initial and final "
    "velocity of the two-body orbit that leaves r1, reaches r2 after exactly that time in the requested sense of motion, making less than one "
    "revolution, to the solver's stated precision. This holds for elliptic, parabolic and hyperbolic orbits alike, in any units and any orientation.",
    ["inputs"], "all transfer triangles, orbits (ellipse, parabola, hyperbola), orientations and unit systems inside each solver's domain",
    "the tests solve about ten textbook transfers with prescribed digits, all elliptic or mildly hyperbolic, most of them from two books",
    SOLVERS, [("time equation and its root finder", SOLVERS[10]), ("initial guesses by region", SOLVERS[8])],
    "exhaustive enumeration of a forward-built lattice of orbit arcs, run on the real compiled solvers",
    "Every lattice point is run on the real code and compared with a closed-form answer; between lattice points nothing is observed. Per-solver precision and domain in mc/spec.py.",
)
prop(
    "C02", "Multi-revolution transfers are solved for every M and both paths",
    "For every feasible number of revolutions M >= 1, each multi-revolution solver returns the velocities of an orbit that makes exactly M complete "
    "revolutions in the given time. Of the two such orbits is_low_path=True selects the one that leaves r1 with the lower flight-path angle, False the other.",
    ["inputs"], "all triangles, M up to the bound, both branches at every depth, orientations and units",
    "the tests use one multi-revolution problem with M=0..3 in one orientation",
    MULTI, [("time equation with M revolutions, minimum-time search and branch choice", f) for f in MULTI[:3]],
    "exhaustive enumeration of a forward-built lattice of multi-revolution arcs, run on the real compiled solvers",
    "As C01, with M in 1..9 (thorough: up to 25) and both sides of the minimum-time orbit.",
)
prop(
    "C03", "Near the edges of the problem an answer is right or absent",
    "Close to the singular configurations (0, 180 and 360 degree transfers, equal or very unequal radii, parabolas, minimum-energy and "
    "minimum-time orbits, extremely fast or slow transfers) a solver either raises an error or returns the right orbit: it never returns "
    "another orbit or non-finite numbers, and it always comes back.",
    ["inputs"], "all configurations towards the singularities of the problem",
    "tests contain no near-singular problem except a single 180-degree rejection",
    SOLVERS, [("convergence test that raises when the iteration limit is reached", SOLVERS[0]), ("guards against degenerate geometry", UT + "assertions.py")],
    "exhaustive enumeration of edge lattices on the real compiled solvers with a watchdog",
    "Only gross errors (5% and more of the velocity) count at the edges; refusing is always acceptable here.",
)
prop(
    "C04", "is_prograde selects the sense of motion",
    "The orbit returned for is_prograde=True has an angular momentum with positive vertical component, the one for is_prograde=False a negative one, "
    "and both really lead from r1 to r2 in the given time in less than one revolution. In planes that contain the vertical axis prograde is the short way, "
    "and the two senses are always opposite.",
    ["inputs"], "all ordered pairs of non-collinear position vectors of an integer lattice, both senses, several times of flight",
    "tests fix one or two orientations; none propagates the returned velocities",
    SOLVERS + [UT + "angles.py"], [("transfer angle from the sign of the normal's vertical component", UT + "angles.py")],
    "exhaustive enumeration of integer position-vector pairs; answers propagated by an independent two-body propagator",
    "Independent of the chart used by C01: the oracle is propagation of the returned velocity.",
)
prop(
    "C05", "is_low_path selects between the two paths of one problem",
    "When a multi-revolution problem has two solutions, the answers for is_low_path=True and False are those two, each the right one: the low path "
    "leaves r1 with the lower flight-path angle, and the two are never swapped or merged.",
    ["inputs"], "all multi-revolution problems of a lattice, each solved for both paths",
    "tests check both paths for one triangle only",
    MULTI, [("low/high branch choice on both sides of the minimum-time orbit", f) for f in MULTI[:2]],
    "exhaustive enumeration of problem pairs with both analytic roots known",
    "The second root is found by bisection of the closed-form time equation.",
)
prop(
    "C06", "Impossible numbers of revolutions are refused, possible ones are not",
    "A multi-revolution request whose time of flight is shorter than the minimum for that number of revolutions raises an error, for either path; a "
    "request longer than the minimum is answered. For one time of flight the answered numbers of revolutions are exactly 0..M_max.",
    ["inputs"], "all (triangle, M, path) and times of flight on both sides of the minimum, and all M from 0 to 13 for each time",
    "tests check one infeasible case",
    MULTI, [("minimum time of flight for M revolutions", f) for f in MULTI[:3]],
    "exhaustive enumeration of (triangle, M, path, time) against the closed-form minimum time",
    "Times within 0.1% of the minimum only have to be not wrong. negrete2024 is only required to refuse what is impossible.",
)
prop(
    "C07", "Solvers without multi-revolution capability say so",
    "Every solver that is not listed as multi-revolution raises ValueError whenever one or more complete revolutions are requested, whatever the rest "
    "of the call, and M=0 of any signed integer type means a direct transfer for every solver.",
    ["inputs", "configurations"], "all single-revolution solvers, numbers of revolutions, problems, paths, output forms",
    "tests check three of the seven solvers with one M",
    SINGLE, [("M > 0 check at entry", f) for f in SINGLE[:2]],
    "exhaustive enumeration of solver x problem x M x flags",
    "All lattice combinations; integers up to 10**6 and NumPy integer types.",
)
prop(
    "C08", "Invalid inputs are refused by every solver",
    "Non-positive, NaN or infinite mu and time of flight, position vectors that are null, not finite, not three-dimensional or equal to each other, and "
    "negative numbers of revolutions make every solver raise ValueError, whatever the other arguments and whatever else is wrong at the same time, and leave the arguments untouched.",
    ["inputs", "fault_sequences"], "every single fault of every argument and every pair of faults in two arguments, all flags, all solvers",
    "tests try one fault at a time on the checker functions, not on each solver",
    SOLVERS + [UT + "assertions.py"], [("input validation at entry of every solver", UT + "assertions.py")],
    "fault enumeration: all single and pairwise input faults against all solvers",
    "The listed faults stand for their kind.", level="fault_enumeration",
)
prop(
    "C09", "Undefined orbit planes are refused",
    "Position vectors along one line, on the same or on opposite sides of the attractor and up to round-off, make every solver raise an explicit error in "
    "both senses of motion: no orbit plane is invented and no NaN is returned.",
    ["inputs"], "all lattice directions and multiples of both signs with every pattern of one-ulp disturbances",
    "tests check one exact 180-degree problem for a few solvers",
    SOLVERS + [UT + "angles.py"], [("collinearity test of the transfer angle", UT + "angles.py"), ("0 and 180 degree checks", UT + "assertions.py")],
    "exhaustive enumeration of collinear pairs with ulp disturbances",
    "Explicit error = ValueError or RuntimeError.",
)

prop(
    "C10", "An iteration budget changes whether there is an answer, never which",
    "Whatever the maximum number of iterations, a solver either raises an error or returns the right orbit: it never returns an unconverged iterate. "
    "Once some budget is sufficient, clearly larger ones are too and give the same answer, and the reported number of iterations stays within the budget.",
    ["inputs", "configurations"], "every iteration budget from 1 up to a bound for every problem of a lattice",
    "tests check one maxiter for a few solvers",
    SOLVERS, [("error raised when the loop runs out of iterations", f) for f in (SOLVERS[2], SOLVERS[4])],
    "exhaustive enumeration of iteration budgets on the real compiled solvers against closed-form answers",
    "Budgets 1..20 and selected larger ones (thorough: 1..80). Counts of solvers with two nested searches may reach twice the budget.",
)
prop(
    "C11", "All solvers share one calling convention and one form of the answer",
    "Every solver takes (mu, r1, r2, tof, M=0, is_prograde=True, is_low_path=True, maxiter, atol, rtol, full_output=False), by position or by name, and returns "
    "v1 and v2 as float vectors of three components, followed by the number of iterations and the time per iteration if and only if full_output is set. "
    "None of full_output, NumPy booleans, the way of passing or an irrelevant path flag changes the answer.",
    ["inputs", "configurations"], "all solvers, problems of every orbit type, and all ways of calling",
    "tests use one way of calling for one problem per solver",
    SOLVERS, [("return statement with and without full_output", f) for f in (SOLVERS[10], SOLVERS[6])],
    "exhaustive enumeration of calling forms x problems on the real compiled solvers",
    "All combinations of the listed forms on a lattice of problems.",
)
prop(
    "C12", "Calls do not influence each other",
    "The answer to a call depends only on its arguments: after any sequence of other calls, successful or failing, of the same or of other solvers, it is bit for bit the "
    "answer of a fresh process. The arguments are never modified, and answers handed out earlier never change afterwards, even if the caller reuses or overwrites the vectors.",
    ["histories"], "all sequences of calls of an alphabet up to a depth, including failing ones, in one process",
    "tests call each solver once per process state and never look at earlier answers again",
    SOLVERS, [("no state outside the call", f) for f in (SOLVERS[10], SOLVERS[2])],
    "exhaustive enumeration of call histories on the real compiled solvers, compared with fresh processes",
    "Histories of one solver of up to 3 (thorough: 4) calls over 15 operations, and of all pairs of solvers. Timings in full output are not compared.",
)
prop(
    "C13", "Solvers can be called from several threads at once",
    "Two threads that call solvers at the same time each get exactly the answer, or the error, they would get alone, wherever one interrupts the other, and also if theirs are the first calls of the process.",
    ["schedules"], "all pairs of calls and all schedules of two threads with up to two preemptions at executed lines; schedules of the first two calls of a process",
    "tests are single-threaded",
    SOLVERS, [("no state shared between calls", f) for f in (SOLVERS[3], SOLVERS[4])],
    "stateless exploration of thread schedules of the real code under a controlled scheduler",
    "Preemption points are the lines of the package that the interpreter executes; compiled functions hold the GIL and are atomic. First calls are explored interpreted (one preemption), each schedule in a process of its own.",
)
prop(
    "C14", "Every call comes back",
    "However extreme the time of flight, the geometry, the number of revolutions, the tolerances or the iteration budget, a call ends with an answer, ValueError or RuntimeError: "
    "it never loops forever, never ends the interpreter, and for ordinary magnitudes never returns NaN and never raises anything else.",
    ["inputs"], "all combinations of extreme geometries and times with the defaults, and of absurd tolerances and budgets for ordinary problems",
    "tests use ordinary magnitudes and default tolerances only; a hang shows as a stuck test run at best",
    SOLVERS, [("loops that converge, or run out of iterations", f) for f in (SOLVERS[13], SOLVERS[7], SOLVERS[11])],
    "exhaustive enumeration of extreme calls on the real compiled solvers under a watchdog",
    "A call that takes more than 40 s counts as one that never returns. Arithmetic errors of Python are accepted at magnitudes beyond 1e4 only.",
)
prop(
    "C15", "The interpreted package behaves as the compiled one",
    "With NUMBA_DISABLE_JIT=1 every solver gives the same kind of outcome as when compiled: the right orbit where it has to answer, "
    "an error or the right orbit near the edges, and both agree with each other.",
    ["inputs", "configurations"], "every orbit arc of a lattice, edges included, in both modes",
    "the test-suite runs in both modes but compares neither mode with the other and has few problems",
    SOLVERS + [S + "linalg.py"], [("code that behaves differently under Numba (division by zero, integers, errors)", S + "linalg.py")],
    "differential exhaustive enumeration: compiled against interpreted package, both against closed form",
    "The same lattice in both modes; the agreement demanded is that of the solvers' stated precision.",
)
prop(
    "C16", "Answers respect the symmetries of the two-body problem",
    "Changing the units of length or mass, turning the axes about the vertical, mirroring in a plane or running the transfer backwards in time maps the answer of every solver "
    "onto its answer for the mapped problem; mirrors and reversal that turn the vertical axis' sense swap prograde and retrograde, and the choice of low or high path is kept.",
    ["inputs", "histories"], "all words over ten symmetries up to a length, for every solver and every problem of a lattice",
    "tests solve each problem in one frame and one unit system only",
    SOLVERS + [UT + "angles.py"], [("sense of motion and non-dimensional variables", UT + "angles.py")],
    "exhaustive enumeration of words of symmetries, replayed on the real compiled solvers",
    "Words of up to 2 (thorough: 3) symmetries. Four of the symmetries change a unit by many orders of magnitude. Solvers with a dimensional absolute tolerance (jiang2016, thorne2004, delatorre2018) get it in the mapped units.",
)
prop(
    "C17", "Transfers can be subdivided and continued",
    "Cutting a transfer at any intermediate points of its orbit leads to the same orbit: each arc, solved separately with the number of revolutions and path it has, gives the velocities "
    "that the whole transfer has at its ends. This holds for repeated cuts and for transfers of more than one revolution.",
    ["inputs", "histories"], "all subdivisions of lattice orbits in up to a number of joints, for every solver",
    "tests never combine answers",
    SOLVERS, [("time equation", SOLVERS[10]), ("time equation", SOLVERS[4])],
    "exhaustive enumeration of subdivisions of orbits on the real compiled solvers",
    "Positions on a lattice of true anomalies; each arc within the solver's domain.",
)
prop(
    "C18", "The solver lists tell the truth and all solvers agree",
    "ALL_SOLVERS has exactly the public solvers, the other lists are subsets without duplicates, and what a list promises holds: multi-revolution solvers solve "
    "multi-revolution problems and the others refuse them, zero-revolution and robust solvers solve direct transfers. All answers to one problem agree.",
    ["inputs", "configurations"], "every solver, listed or not, on every problem of a lattice, and all pairs of solvers",
    "tests iterate over the lists, so that a solver missing from one is silently not tested",
    [S + "__init__.py"] + SOLVERS, [("lists of solvers", S + "__init__.py")],
    "exhaustive enumeration of (solver, problem) pairs and of pairs of answers",
    "The lattice lies inside the domain of all listed solvers except gauss1809, which is only required not to be wrong.",
)
prop(
    "C19", "Transfer angle, normal and node describe the requested motion",
    "For any two non-collinear position vectors of any length, get_transfer_angle, get_orbit_normal_vector and get_orbit_inc_and_raan_from_position_vectors give the "
    "angle, unit normal, inclination and node of the motion from r1 to r2 in the requested sense. Both senses add up to one turn, angles in one plane add up, and "
    "collinear vectors give exactly 0 or pi.",
    ["inputs"], "all ordered pairs and coplanar triples of integer vectors, both senses, several scales",
    "tests check a handful of directions",
    [UT + "angles.py"], [("sense of the normal and of the angle", UT + "angles.py")],
    "exhaustive enumeration of integer vectors against exact integer arithmetic",
    "Inclination and node are compared through the normal they describe.",
)
prop(
    "C20", "Anomalies and Kepler's equations are exact inverses of one another",
    "For every eccentricity and true anomaly the eccentric, parabolic or hyperbolic anomaly is that of the same point of the conic and converts back to it, and "
    "kepler_from_nu is the mean anomaly, i.e. the area swept: odd, increasing and equal to the particular Kepler equation of the conic. Negative eccentricities are refused.",
    ["inputs"], "all eccentricities and true anomalies of a grid over ellipses, the parabola and hyperbolas",
    "tests check one or two values per function",
    [UT + "angles.py", UT + "kepler.py"], [("choice of the conic by eccentricity", UT + "kepler.py")],
    "exhaustive enumeration of (eccentricity, anomaly) against the conic and quadrature",
    "Grid bounds: eccentricity 0..300 (thorough 1e4), 239 (1439) anomalies each.",
)
prop(
    "C21", "Orbital elements and state vectors convert into each other without loss",
    "coe2rv gives the state that the elements describe and rv2coe gives elements that describe the state, with the angles in their ranges, for every conic and every "
    "orientation including circular, parabolic, equatorial and retrograde ones. Rotation matrices are rotations.",
    ["inputs"], "all combinations of semi-latus rectum, eccentricity, inclination, node, periapsis and anomaly of a grid",
    "tests convert one textbook orbit",
    [UT + "elements.py"], [("special cases of circular and equatorial orbits", UT + "elements.py")],
    "exhaustive enumeration of element combinations: forward in closed form, back, and forward again",
    "One known finding (rotation about the y axis, pinned by an existing test).",
)
prop(
    "C22", "Stumpff functions and linear algebra are accurate everywhere",
    "c2 and c3 equal their series to round-off for every argument, positive, negative or next to the seams between formulas, and decrease without jumps. dot, cross and "
    "norm are right for vectors of any number type, without integer overflow.",
    ["inputs"], "all listed arguments around every seam; all pairs of integer vectors in several types",
    "tests check a few arguments far from the seams",
    [UT + "stumpff.py", S + "linalg.py"], [("series around zero, closed forms elsewhere", UT + "stumpff.py")],
    "exhaustive enumeration of arguments against rational arithmetic",
    "Arguments from -1000 to 1000.",
)
prop(
    "C23", "The input checkers accept exactly the valid inputs",
    "assert_parameters_are_valid and the individual checkers return True for every valid combination of values, however small, large or close to each other, and raise "
    "ValueError if any value is invalid, whichever argument it is in and whatever the other arguments are.",
    ["inputs", "fault_sequences"], "every combination of valid and invalid values of all arguments",
    "tests check one valid and one invalid value for each checker",
    [UT + "assertions.py"], [("checkers", UT + "assertions.py")],
    "exhaustive enumeration of all combinations of boundary values",
    "Boundary values stand for their class.",
)
prop(
    "C24", "The benchmark report replaces its own section of the README only",
    "update_readme leaves every word outside the generated section as it was, whatever users did to the file in between, and afterwards the file has exactly one section (or every "
    "copy of it) showing the last report only. Running it again changes nothing, and a run that fails leaves the file untouched.",
    ["histories", "fault_sequences"], "all sequences of updates with different reports and user edits up to a depth, over many initial contents; all kinds of unusable report directories",
    "the script has no tests",
    ["scripts/generate_benchmark_report.py"], [("replacement between markers", "scripts/generate_benchmark_report.py:update_readme")],
    "explicit-state breadth-first exploration of file contents, transitions made by the real script",
    "Depth 4 (thorough 5). Stray markers left by users count as text.",
)
prop(
    "C25", "The benchmark report tells every figure once and ranks correctly",
    "Every benchmark of the JSON reports appears in exactly one row with its own figures, under its group and scenario. Within a case the ranks are 1 to n by median and the speed-up "
    "is relative to the slowest; the text depends neither on the order of the benchmarks nor on their distribution over files.",
    ["inputs", "configurations"], "all assignments of medians (ties included) to up to four solvers, all pairs of cases and groups, all orders and distributions over two files",
    "the script has no tests",
    ["scripts/generate_benchmark_report.py"], [("ranking within a case", "scripts/generate_benchmark_report.py:_rank_within_case")],
    "exhaustive enumeration of report contents and orders, run on the real script",
    "Small universes: up to four solvers, three cases, two groups, two files.",
)
prop(
    "C26", "Smaller tolerances give better answers",
    "With any pair of absolute and relative tolerances from the defaults down to round-off every solver still solves the problem, no worse than with the defaults, and with the smallest ones "
    "much better. Only where doubles cannot resolve a tolerance may it be refused.",
    ["inputs", "configurations"], "all pairs of tolerances of a ladder for every problem of a lattice",
    "tests use one pair of tolerances",
    SOLVERS, [("convergence test", f) for f in (SOLVERS[8], SOLVERS[2])],
    "exhaustive enumeration of tolerance pairs x problems on the real compiled solvers against closed-form answers",
    "Refusals are accepted below 1e-9 for negrete2024 and arora2013, whose residual cannot go further.",
)
prop(
    "C27", "The routines published next to the solvers compute what they document",
    "For every geometry and orbit: the transverse-eccentricity routines give the elements, anomalies and time of flight of the conic with that eccentricity vector (parabola included); "
    "Thorne's routines give Lagrange's times of flight, the branch, axis and velocities, and the exact coefficients of the series, of its reversion and of its inversion; Gooding's routines "
    "give the time of flight with three derivatives, the number of solutions, both solutions and the velocity components; Izzo's hypergeometric function equals Euler's integral.",
    ["inputs"], "a lattice of orbit arcs, all rational transfer parameters and numbers of terms of a grid",
    "tests never call these routines but through one solver with default tolerances",
    [S + "ecc_solvers/utils.py", S + "series_solvers/thorne.py", S + "universal_solvers/gooding.py", S + "universal_solvers/izzo.py"],
    [("elements at a transverse eccentricity", S + "ecc_solvers/utils.py"), ("Lagrange's equation and series reversion", S + "series_solvers/thorne.py"), ("tlamb, xlamb, vlamb", S + "universal_solvers/gooding.py")],
    "exhaustive enumeration of model states (closed-form orbit arcs, rational power series); every routine is run on every state of the model",
    "A routine that is renamed or takes other parameters is skipped. Series of up to 12 (thorough: 18) terms.",
)
prop(
    "C28", "Answers do not depend on number types or array layout",
    "Integer, single and double precision vectors, strided, reversed and read-only views, Python and NumPy numbers for mu, tof and M all give the answer that "
    "plain floats with the same values give, and leave the arguments untouched.",
    ["inputs", "configurations"], "all listed combinations of array layout and number types for every solver",
    "tests pass contiguous float arrays and Python numbers only",
    SOLVERS + [S + "linalg.py"], [("compiled signatures and linear algebra", S + "linalg.py")],
    "exhaustive enumeration of type combinations on the real compiled solvers",
    "Five problems per combination; 1e-9 relative agreement (1e-5 with single precision).",
)

NOT_APPLICABLE = []


def main():
    sys.path.insert(0, HERE)
    from mc import registry

    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in P:
            fh.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": ["public functions of the lamberthub package"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["pid"]
            assert p["pid"] in registry.CHECKS, p["pid"]
    assert {p["pid"] for p in P} == set(registry.CHECKS)
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import numpy, numba, scipy' && /opt/venv/bin/python -m mc.selftest",
        "checks": [{
            "property": p["pid"],
            "quick_cmd": f"/opt/venv/bin/python check.py {p['pid']}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p['pid']}",
            "evidence_file": f"evidence/{p['pid']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in P],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: every check drives the public functions of the unmodified package. Each check compiles the package into a cache of its own.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")


if __name__ == "__main__":
    main()
