"""What is demanded of each solver: accuracy, and where it has to answer.

The published algorithms stop at different criteria: with the default tolerances
(absolute 1e-5, relative 1e-7) some deliver 14 digits and some 4.  ``tol`` bounds
the relative velocity error with a margin of at least ten over what the correct
code shows, ``required`` is the domain in which refusing to answer is a failure.
"""

from math import sqrt

from mc.lattice import UNITS, build

TIGHT_SOLVERS = {
    "battin1984",
    "gooding1990",
    "izzo2015",
    "mcelreath2025",
    "delatorre2018",
}
BY_NAME = {
    "avanzini2008": 1e-4,
    "vallado2013": 1e-4,
    "arora2013": 3e-3,
    "der2011": 3e-3,
    "thorne2004": 1e-2,
    "jiang2016": 5e-3,
    "pan2016": 3e-3,
    "gauss1809": 3e-3,
    "negrete2024": 1e-4,
}


def tol(name, state, tight=False):
    """Largest accepted relative velocity error."""
    _, th, M, f, _, _ = state
    if name in TIGHT_SOLVERS:
        t = 1e-6
    elif tight:
        t = 1e-4 if name in ("avanzini2008", "jiang2016", "pan2016", "gauss1809") else 1e-6
    else:
        t = BY_NAME[name]
    if name == "avanzini2008" and not 0.1 <= state[0] <= 10:
        t = 2e-2
    if name == "jiang2016" and abs(f) < 0.05:
        # the minimum-energy orbit is a branch point of its iteration variable
        t = 0.1 if not tight else 1e-2
    if name == "thorne2004" and abs(f) < 0.02 and not tight:
        t = 5e-2
    if M:
        # the velocities depend on the square root of T - T_min
        t = max(t, 1e-2 if name in ("der2011", "arora2013", "negrete2024") else 1e-5)
        if abs(f) < 0.01:
            t = max(t, 5e-2)
    return t


EDGE = {
    "gooding1990": 1e-6,
    "delatorre2018": 1e-5,
    "vallado2013": 1e-4,
    "battin1984": 1e-3,
    "pan2016": 1e-3,
    "gauss1809": 1e-3,
    "negrete2024": 1e-3,
}


def edge_tol(name, state):
    """At the edges a lost digit is accepted, another orbit is not."""
    _, th, M, f, _, _ = state
    turn = min(th, 360 - th)
    if name == "avanzini2008":
        # the eccentricity is large and its direction is lost next to a full turn
        return 0.5 if turn < 0.7 else 0.1
    if name == "izzo2015" and M and turn < 2 and abs(f) < 0.05:
        return 0.2
    if name == "jiang2016" and abs(f) < 0.05:
        return 0.3
    if name == "negrete2024" and M:
        return 0.02
    return EDGE.get(name, 0.02)


def edge_kw(name, state):
    if name in ("jiang2016", "thorne2004", "arora2013"):
        return {"atol": min(1e-5, 1e-4 * build(state).tof)}
    return default_kw(name, state)


def default_kw(name, state):
    if name == "vallado2013":
        # its bisection needs more room than the common default of 35
        return {"maxiter": 500}
    if name in ("jiang2016", "thorne2004") and state[5] in (3, 7):
        # their absolute tolerance is a time: keep it small where the times are
        L, mu = UNITS[state[5]]
        return {"atol": 1e-5 * sqrt(L**3 / mu)}
    return {}


def required(name, state):
    """True when the solver has to answer this state with default tolerances."""
    rho, th, M, f, _, unit = state
    if M == 0:
        if name == "gauss1809":
            return 0.4 <= rho <= 2.5 and 3 <= th <= 45 and 0.3 <= f <= 1.6
        if name == "negrete2024":
            return 0.1 <= rho <= 10 and 90 <= th <= 300 and (
                -0.9 <= f <= 0.85 or 1.1 <= f <= 2.0
            )
        if name == "mcelreath2025" and 5e-7 < abs(f - 1) < 1e-3:
            return False
        return 0.01 <= rho <= 100 and 3 <= th <= 357 and -0.99 <= f <= 2.0
    if name == "negrete2024":
        return M <= 2 and 0.1 <= rho <= 10 and 90 <= th <= 300 and 0.2 <= abs(f) <= 0.8
    return 0.01 <= rho <= 100 and 3 <= th <= 357 and 0.02 <= abs(f) <= 0.98
