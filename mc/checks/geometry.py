"""C19: transfer geometry.  C20: anomalies and Kepler's equations.  C21: orbital
elements.  C22: Stumpff functions and linear algebra.  C23: input checkers."""

from fractions import Fraction
from itertools import product
from math import acos, atan2, cos, factorial, inf, log2, nan, nextafter, pi, sin, sqrt, tan

import numpy as np

from mc import harness
from mc.checks import solve
from mc.harness import THOROUGH

TAU = 2 * pi


def lattice_vectors(big=THOROUGH):
    v = [c for c in product((-1, 0, 1), repeat=3) if any(c)]
    v += [(2, 0, 0), (0, -2, 0), (0, 0, 3), (3, -1, 2), (-1, 2, 2), (2, 3, 1), (-3, 1, 0), (1, 1, -4)]
    if big:
        v += [c for c in product((-2, -1, 0, 1, 2), repeat=3) if any(c)]
    return sorted(set(v))


def icross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def idot(a, b):
    return sum(x * y for x, y in zip(a, b))


def finish(rep, n, rule, states):
    rep.assumptions = ["behaviour between the enumerated points is not observed"]
    return solve.finish(rep, n, rule, states)


class Judge:
    """Counts what is asserted and reports what fails."""

    def __init__(self, rep):
        self.rep, self.n = rep, 0

    def __call__(self, ok, key, text):
        self.n += 1
        if ok:
            self.rep.counts["correct"] += 1
        else:
            self.rep.violation(key, text() if callable(text) else text, {"case": key})

    def run(self, key, fn, *args):
        """The value, or None after having reported that it raised."""
        try:
            return fn(*args)
        except Exception as exc:  # noqa: BLE001
            self(False, key, f"raised {type(exc).__name__}: {exc}"[:120])
            return None


def near_angle(a, b, tol=1e-12):
    d = (a - b) % TAU
    return min(d, TAU - d) <= tol


# ------------------------------------------------------------------ C19
def flat(J, inc_raan, normal, angle, states):
    """Planes that are nearly, but not exactly, the equator (integers, so the cross product is exact)."""
    xy = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-2, 1), (1, -3)]
    tilts = [0, 1, -1, 4, -7]
    for a, b, za, zb, k, pg in product(xy, xy, tilts, tilts, range(0, 28, 3 if THOROUGH else 4), (True, False)):
        n = 2**k
        u, v = (a[0] * n, a[1] * n, za), (b[0] * n, b[1] * n, zb)
        cr = icross(u, v)
        if cr[2] == 0 or not cr[0] and not cr[1] and k:
            continue
        states.add((u, v, pg))
        key = f"r1={u}|r2={v}|prograde={pg}"
        r1, r2 = np.array(u, float), np.array(v, float)
        up = cr[2] > 0
        s = 1 if up == pg else -1
        g = sqrt(idot(cr, cr))
        tilt = atan2(sqrt(cr[0] ** 2 + cr[1] ** 2), s * cr[2])
        io = J.run(key + "|inc", inc_raan, r1, r2, pg)
        h = J.run(key + "|normal", normal, r1, r2, pg)
        th = J.run(key + "|angle", angle, r1, r2, pg)
        if io is None or h is None or th is None:
            continue
        hw = np.array([s * float(x) / g for x in cr])
        J(np.abs(h - hw).max() <= 1e-14 + 1e-12 * np.abs(hw[:2]).max(), key + "|normal", lambda: f"normal {h}, not {hw}")
        # an inverse cosine cannot know better than this
        J(abs(io[0] - tilt) <= 3e-8, key + "|tilt", lambda: f"inclination {io[0]!r}, not {tilt!r}")
        back = np.array([sin(io[1]) * sin(io[0]), -cos(io[1]) * sin(io[0]), cos(io[0])])
        J(np.abs(back - hw).max() <= 6e-8, key + "|elements", lambda: f"inclination {io[0]!r} and node {io[1]!r} describe the normal {back}, not {hw}")
        short = atan2(sqrt(idot(cr, cr)), idot(u, v))
        want = short if up == pg else TAU - short
        J(abs(th - want) <= 1e-12, key + "|angle", lambda: f"transfer angle {th!r}, not {want!r}")


def transfer(rep):
    from lamberthub.utils.angles import (
        get_orbit_inc_and_raan_from_position_vectors as inc_raan,
        get_orbit_normal_vector as normal,
        get_transfer_angle as angle,
    )

    J = Judge(rep)
    vs = lattice_vectors()
    scales = [(1.0, 1.0), (7e3, 0.5), (1e-6, 1e11)] + ([(1e-9, 1e-9), (1e13, 3e12)] if THOROUGH else [])
    states = set()
    table = {}
    for a, b, pg in product(vs, vs, (True, False)):
        cr = icross(a, b)
        for sa, sb in scales:
            if cr[2] == 0:
                # keep the products exact: in vertical planes round-off decides the sense
                sa, sb = 2.0 ** round(log2(sa)), 2.0 ** round(log2(sb))
            states.add((a, b, pg, sa, sb))
            k = f"r1={a}*{sa:g}|r2={b}*{sb:g}|prograde={pg}"
            r1, r2 = sa * np.array(a, float), sb * np.array(b, float)
            th = J.run(k + "|angle", angle, r1, r2, pg)
            if th is None:
                continue
            if not any(cr):
                want = 0.0 if idot(a, b) > 0 else pi
                J(th == want, k + "|collinear", lambda: f"angle {th!r} between collinear vectors, not {want}")
                continue
            short = atan2(sqrt(idot(cr, cr)), idot(a, b))
            up = cr[2] >= 0
            want = short if up == pg else TAU - short
            J(abs(th - want) <= 1e-12, k + "|angle", lambda: f"transfer angle {th!r}, not {want!r}")
            if sa == 1.0:
                table[a, b, pg] = th
            h = J.run(k + "|normal", normal, r1, r2, pg)
            io = J.run(k + "|inc", inc_raan, r1, r2, pg)
            if h is None or io is None:
                continue
            sgn = 1 if up == pg else -1
            hw = sgn * np.array(cr, float) / sqrt(idot(cr, cr))
            J(np.shape(h) == (3,) and np.abs(h - hw).max() <= 1e-12, k + "|normal", lambda: f"normal {h}, not {hw}")
            inc, raan = io
            J(0 <= inc <= pi and 0 <= raan < TAU + 1e-12, k + "|range", lambda: f"inclination {inc!r}, node {raan!r} out of range")
            # the two angles give the normal back, however they are found
            back = np.array([sin(raan) * sin(inc), -cos(raan) * sin(inc), cos(inc)])
            J(np.abs(back - hw).max() <= 1e-7, k + "|elements", lambda: f"inclination {inc!r} and node {raan!r} describe the normal {back}, not {hw}")
    # both senses together are one turn; turning back is the other sense
    for (a, b, pg), th in table.items():
        J(abs(th + table[a, b, not pg] - TAU) <= 1e-12, f"{a}|{b}|senses", "the angles of both senses do not add up to one turn")
        if icross(a, b)[2]:
            J(abs(th + table[b, a, pg] - TAU) <= 1e-12, f"{a}|{b}|back", "going there and back in one sense is not one turn")
    # three directions in one plane: angles add up
    for a, b in product(vs, vs):
        n = icross(a, b)
        if n[2] == 0:
            continue
        for c in vs:
            if idot(n, c) or not any(icross(a, c)) or not any(icross(b, c)):
                continue
            for pg in (True, False):
                s = table[a, b, pg] + table[b, c, pg] - table[a, c, pg]
                J(near_angle(s, 0.0, 3e-12), f"{a}|{b}|{c}|prograde={pg}|sum", lambda: f"angles in one plane do not add up: {s!r}")
                states.add((a, b, c, pg))
    flat(J, inc_raan, normal, angle, states)
    rep.sample({"r1": vs[0], "r2": vs[1], "angles": [table.get((vs[0], vs[5], True)), table.get((vs[0], vs[5], False))]})
    return finish(
        rep, J.n,
        "all ordered pairs (and coplanar triples) of integer vectors, both senses, several "
        "scales, against exact integer cross products",
        len(states),
    )


# ------------------------------------------------------------------ C20
_GX, _GW = np.polynomial.legendre.leggauss(64)


def sweep_integral(nu, ecc, pieces=12):
    """Integral of (1 + e cos nu)^-2 from 0 to nu, i.e. the time in units of p^1.5."""
    if nu == 0:
        return 0.0
    # graded towards nu, where the integrand is steepest
    cuts = [nu * (1 - 0.5**k) for k in range(pieces + 14)] + [nu]
    tot = 0.0
    for a, b in zip(cuts[:-1], cuts[1:]):
        x = 0.5 * (b - a) * _GX + 0.5 * (a + b)
        tot += 0.5 * (b - a) * float(_GW @ (1 + ecc * np.cos(x)) ** -2.0)
    return tot


def anomalies(rep):
    from lamberthub.utils import angles as A
    from lamberthub.utils import kepler as K

    J = Judge(rep)
    states = 0
    ell = [0.0, 1e-9, 1e-3, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.9999]
    hyp = [1.0001, 1.01, 1.1, 1.5, 2.0, 5.0, 20.0, 300.0]
    if THOROUGH:
        ell += [k / 40 for k in range(1, 40)] + [0.999999]
        hyp += [1.000001, *(1 + k / 10 for k in range(1, 60)), 1e4]
    m = 720 if THOROUGH else 120
    for e in ell:
        prev = -inf
        for k in range(-m + 1, m):
            nu = pi * k / m
            states += 1
            key = f"e={e:g}|nu={nu:.9g}"
            E = J.run(key + "|E", A.nu_to_E, nu, e)
            if E is None:
                continue
            # position on the ellipse by both anomalies
            rx, ry = (1 - e * e) * cos(nu) / (1 + e * cos(nu)), (1 - e * e) * sin(nu) / (1 + e * cos(nu))
            d = max(abs(cos(E) - e - rx), abs(sqrt(1 - e * e) * sin(E) - ry))
            J(d <= 1e-12 * (1 + 1 / sqrt(1 - e)), key + "|E", lambda: f"eccentric anomaly {E!r} is another point ({d:.2g})")
            J(-pi <= E <= pi, key + "|E range", lambda: f"eccentric anomaly {E!r} out of range")
            back = J.run(key + "|back", A.E_to_nu, E, e)
            J(back is not None and abs(back - nu) <= 1e-9, key + "|back", lambda: f"E_to_nu(nu_to_E(nu)) = {back!r}")
            Mk = J.run(key + "|M", K.kepler_from_nu, nu, e)
            Me = J.run(key + "|Me", K.kepler_elliptic, E, e)
            if Mk is None or Me is None:
                continue
            want = (1 - e * e) ** 1.5 * sweep_integral(nu, e)
            lim = 1e-9 * abs(want) + 1e-14 * (1 + 1 / sqrt(1 - e))
            J(abs(Mk - want) <= lim, key + "|M", lambda: f"mean anomaly {Mk!r}, area swept says {want!r}")
            J(abs(Mk - Me) <= 1e-12, key + "|Me", lambda: f"kepler_from_nu {Mk!r} and kepler_elliptic {Me!r} differ")
            J(Mk > prev, key + "|monotone", "mean anomaly does not increase")
            prev = Mk
    prev = -inf
    for k in range(-m + 1, m):
        nu = pi * k / m
        states += 1
        key = f"e=1|nu={nu:.9g}"
        B = J.run(key, A.nu_to_B, nu)
        if B is None:
            continue
        J(abs(B - tan(nu / 2)) <= 1e-12 * (1 + abs(B)), key + "|B", lambda: f"parabolic anomaly {B!r}")
        J(abs(A.B_to_nu(B) - nu) <= 1e-12, key + "|back", "B_to_nu(nu_to_B(nu)) is another angle")
        Mk, Mp = J.run(key, K.kepler_from_nu, nu, 1.0), J.run(key, K.kepler_parabolic, B)
        if Mk is None or Mp is None:
            continue
        want = 2 * sweep_integral(nu, 1.0, 20)
        J(abs(Mk - want) <= 1e-9 * abs(want) + 1e-13, key + "|M", lambda: f"mean anomaly {Mk!r}, area swept says {want!r}")
        J(abs(Mk - Mp) <= 1e-12 * (1 + abs(Mp)), key + "|Mp", "kepler_from_nu and kepler_parabolic differ")
        J(Mk > prev, key + "|monotone", "mean anomaly does not increase")
        prev = Mk
    for e in hyp:
        lim_nu = acos(-1 / e)
        prev = -inf
        for k in range(-m + 1, m):
            nu = lim_nu * k / m
            states += 1
            key = f"e={e:g}|nu={nu:.9g}"
            H = J.run(key + "|H", A.nu_to_H, nu, e)
            if H is None:
                continue
            w = 1 + e * cos(nu)
            # cosh and sinh of H from the position on the hyperbola
            ch, sh = (e + cos(nu)) / w, sqrt(e * e - 1) * sin(nu) / w
            d = max(abs(np.cosh(H) - ch), abs(np.sinh(H) - sh)) / ch
            J(d <= 1e-12 * (1 + e / w), key + "|H", lambda: f"hyperbolic anomaly {H!r} is another point ({d:.2g})")
            back = J.run(key + "|back", A.H_to_nu, H, e)
            J(back is not None and abs(back - nu) <= 1e-9, key + "|back", lambda: f"H_to_nu(nu_to_H(nu)) = {back!r}")
            Mk, Mh = J.run(key + "|M", K.kepler_from_nu, nu, e), J.run(key + "|Mh", K.kepler_hyperbolic, H, e)
            if Mk is None or Mh is None:
                continue
            want = (e * e - 1) ** 1.5 * sweep_integral(nu, e)
            lim = 1e-9 * abs(want) * (1 + 1e-4 * e / w) + 1e-14 * (1 + 1 / sqrt(e - 1)) * e
            J(abs(Mk - want) <= lim, key + "|M", lambda: f"mean anomaly {Mk!r}, area swept says {want!r}")
            J(abs(Mk - Mh) <= 1e-12 * (1 + abs(Mh)), key + "|Mh", "kepler_from_nu and kepler_hyperbolic differ")
            J(Mk > prev, key + "|monotone", "mean anomaly does not increase")
            prev = Mk
    for e in (-1e-9, -0.3, -1.0, -7.0):
        for nu in (-2.0, 0.0, 1.0):
            states += 1
            try:
                K.kepler_from_nu(nu, e)
                J(False, f"e={e}|nu={nu}", "a negative eccentricity was accepted")
            except ValueError:
                J(True, "", "")
    rep.sample({"eccentricities": ell + [1.0] + hyp, "angles each": 2 * m - 1})
    return finish(
        rep, J.n,
        "every (eccentricity, true anomaly) of a grid on ellipses, the parabola and "
        "hyperbolas against the position on the conic and the area swept (quadrature)",
        states,
    )


# ------------------------------------------------------------------ C21
def elements(rep):
    from lamberthub.utils import elements as L

    J = Judge(rep)
    pqw, turn = getattr(L, "rv_pqw", None), getattr(L, "coe_rotation_matrix", None)
    states = 0
    ms = ((1.0, 1.0), (398600.4418, 12000.0))
    eccs = (0.0, 1e-6, 3e-5, 1e-3, 0.3, 0.9, 1.0, 1.4, 4.0)
    incs = (0.0, 2e-6, 5e-4, 0.3, pi / 2, 2.0, pi - 3e-5, pi)
    angs = (0.0, 0.7, 2.0, pi, 4.0, 6.0)
    fr = (-0.97, -0.6, -0.2, 0.0, 0.3, 0.8)
    if THOROUGH:
        eccs = (*eccs, 1e-7, 3e-4, 0.05, 0.6, 0.99, 1.01, 2.0, 30.0)
        incs = (*incs, 1e-7, 1e-5, 1e-3, 0.9, 1.2, 2.7, pi - 1e-3, pi - 1e-6)
        angs = (*angs, 1.3, pi / 2, 3 * pi / 2, 5.2)
        fr = (*fr, -0.4, 0.05, 0.5, 0.95, 1.0)
    for (mu, p), e, inc, raan, argp, f in product(ms, eccs, incs, angs, angs, fr):
        lim = pi if e <= 1 else acos(-1 / e)
        nu = f * lim
        if e >= 1 and abs(f) == 1:
            continue
        states += 1
        key = f"mu={mu:g}|p={p:g}|e={e:g}|inc={inc:.6g}|raan={raan:.6g}|argp={argp:.6g}|nu={nu:.6g}"
        rv = J.run(key + "|coe2rv", L.coe2rv, mu, p, e, inc, raan, argp, nu)
        if rv is None:
            continue
        r, v = np.asarray(rv[0], float), np.asarray(rv[1], float)
        # closed form of the state
        N = np.array([cos(raan), sin(raan), 0.0])
        W = np.array([sin(raan) * sin(inc), -cos(raan) * sin(inc), cos(inc)])
        Q = np.cross(W, N)
        u = argp + nu
        er, et = cos(u) * N + sin(u) * Q, -sin(u) * N + cos(u) * Q
        rr = p / (1 + e * cos(nu))
        vv = sqrt(mu / p)
        rw, vw = rr * er, vv * (e * sin(nu) * er + (1 + e * cos(nu)) * et)
        sp = sqrt(vw @ vw)
        J(np.abs(r - rw).max() <= 1e-11 * rr, key + "|r", lambda: f"position {r}, not {rw}")
        J(np.abs(v - vw).max() <= 1e-11 * (sp + vv), key + "|v", lambda: f"velocity {v}, not {vw}")
        if pqw is not None:
            fl = J.run(key + "|rv_pqw", pqw, mu, p, e, nu)
            if fl is not None:
                fw = np.array([[rr * cos(nu), rr * sin(nu), 0], [-vv * sin(nu), vv * (e + cos(nu)), 0]])
                J(np.shape(fl) == (2, 3) and np.abs((np.array(fl) - fw) / np.array([[rr], [sp + vv]])).max() <= 1e-12, key + "|rv_pqw", lambda: f"perifocal state {fl}, not {fw}")
        if turn is not None:
            m = J.run(key + "|rotation", turn, inc, raan, argp)
            if m is not None:
                mw = np.array([cos(argp) * N + sin(argp) * Q, -sin(argp) * N + cos(argp) * Q, W]).T
                J(np.abs(np.array(m) - mw).max() <= 1e-13, key + "|rotation", lambda: f"rotation {m}, not {mw}")
        el = J.run(key + "|rv2coe", L.rv2coe, mu, rw, vw)
        if el is None:
            continue
        P, E, I, O, w, n = map(float, el)
        # how much the round-off of the state moves the elements
        amp = 1e-9 * (1 + (rr / p) + 1 / max(1e-3, (1 + e * cos(nu))))
        J(abs(P - p) <= amp * p, key + "|p", lambda: f"semi-latus rectum {P!r}")
        J(abs(E - e) <= amp, key + "|e", lambda: f"eccentricity {E!r}")
        J(abs(I - inc) <= 1e-7, key + "|inc", lambda: f"inclination {I!r}")
        J(0 <= O < TAU + 1e-12 and 0 <= w < TAU + 1e-12, key + "|range", lambda: f"node {O!r}, periapsis {w!r} out of range")
        J(-pi - 1e-12 <= n <= pi + 1e-12, key + "|nu range", lambda: f"true anomaly {n!r} out of range")
        if 0.01 < inc < pi - 0.01:
            J(near_angle(O, raan, 1e-8), key + "|raan", lambda: f"node {O!r}")
            if e > 1e-4:
                J(near_angle(w, argp, 1e-5 * max(amp / 1e-9, 1)), key + "|argp", lambda: f"argument of periapsis {w!r}")
        if e > 1e-4:
            J(near_angle(n, nu, 1e-5 * max(amp / 1e-9, 1)), key + "|nu", lambda: f"true anomaly {n!r}")
        # whatever they are, they describe the same state (a parabola only up to the
        # round-off of its eccentricity)
        if abs(e - 1) > 1e-9 or abs(f) < 0.9:
            back = J.run(key + "|back", L.coe2rv, mu, P, E, I, O, w, n)
            if back is not None:
                d = np.abs(back[0] - rw).max() / rr + np.abs(back[1] - vw).max() / (sp + vv)
                J(d <= 40 * amp, key + "|back", lambda: f"coe2rv(rv2coe(state)) is off by {d:.2g}")
    # rotation matrices form a group
    for axis in (0, 1, 2):
        k = {0: 1, 1: 2, 2: 0}[axis]
        for a, b in product([x * pi / 6 for x in range(-12, 13)], (-2.0, 0.3, pi / 2, 5.0)):
            states += 1
            key = f"axis={axis}|a={a:.4g}|b={b:.4g}"
            A, B, AB = (np.array(L.rotation_matrix(x, axis)) for x in (a, b, a + b))
            if axis == 1 and all(abs(m[2, 0] - sin(x)) < 1e-13 > abs(m[0, 2] - sin(x)) for m, x in ((A, a), (B, b), (AB, a + b))):
                # the recorded defect; judge the rest of the matrix as if it were repaired
                if abs(sin(a)) > 0.1:
                    J.n += 1
                    rep.violation("rotation_matrix|axis=1|element [2, 0]", "the sign of the sine in the third row is wrong: not a rotation", {"axis": 1, "a": a})
                for m in (A, B, AB):
                    m[2, 0] = -m[2, 0]
            J(np.abs(A @ B - AB).max() <= 1e-13, key + "|sum", "rotations by a and b are not the rotation by a + b")
            J(np.abs(A @ A.T - np.eye(3)).max() <= 1e-14, key + "|orthogonal", "not orthogonal")
            ek = np.eye(3)[k]
            turned = np.eye(3)[(k + 1) % 3] * sin(a) + ek * cos(a)
            J(np.abs(A @ ek - turned).max() <= 1e-14, key + "|sense", "turns the wrong way")
    for axis in (-1, 3, 7):
        states += 1
        try:
            L.rotation_matrix(0.3, axis)
            J(False, f"axis={axis}", "an invalid axis was accepted")
        except ValueError:
            J(True, "", "")
    rep.sample({"eccentricities": eccs, "inclinations": incs, "angles": angs})
    return finish(
        rep, J.n,
        "every combination of elements of a grid (circular, equatorial, retrograde, "
        "parabolic, hyperbolic included): state in closed form, elements back, state again",
        states,
    )


# ------------------------------------------------------------------ C22
def stumpff_exact(psi, n):
    """Sum of (-psi)^k / (2k + n)! in rational arithmetic."""
    q = Fraction(psi)
    tot, term, k = Fraction(0), Fraction(1, factorial(n)), 0
    while True:
        tot += term
        k += 1
        term = term * -q / ((2 * k + n - 1) * (2 * k + n))
        # bounded denominators keep this fast and are far below the tolerance
        term = term.limit_denominator(10**90) if term.denominator > 10**120 else term
        if k > 5 and 2 * k > abs(psi) ** 0.5 * 2 and abs(term) < Fraction(1, 10**40) * max(abs(tot), Fraction(1, 10**40)):
            return float(tot)


def algebra(rep):
    from lamberthub import linalg as G
    from lamberthub.utils import stumpff as S

    J = Judge(rep)
    states = 0
    psis = {0.0, 1e-300, 1e-12, 1e-8, 1e-3, 0.5}
    psis |= {k / 8 for k in range(1, 25)} | {0.37 * 1.35**k for k in range(1, 24)}
    if THOROUGH:
        psis |= {k / 64 for k in range(1, 320)} | {0.11 * 1.07**k for k in range(1, 130)}
    psis |= {(k * pi) ** 2 for k in range(1, 9)}
    for b in (1.0, 0.1, 0.01, 1e-4, 1e-6):
        psis |= {b, nextafter(b, 0), nextafter(b, 2), b * (1 + 1e-9), b * (1 - 1e-9)}
    for psi in sorted(psis | {-x for x in psis}):
        for n, f in ((2, S.c2), (3, S.c3)):
            states += 1
            key = f"c{n}({psi!r})"
            got = J.run(key, f, psi)
            if got is None:
                continue
            want = stumpff_exact(psi, n)
            s = sqrt(abs(psi))
            lim = 2e-14 * (1 + s) * abs(want)
            if psi > 0.25:
                lim += 4e-15 * (1 + s) / psi * (1 if n == 2 else 1 / s)
            J(abs(got - want) <= lim, key, lambda: f"is {got!r}, the series sums to {want!r}")
    # no jumps: both functions decrease
    seq = sorted(x for x in (psis | {-x for x in psis}) if -200 < x < 35)
    for f, nm in ((S.c2, "c2"), (S.c3, "c3")):
        for a, b in zip(seq[:-1], seq[1:]):
            states += 1
            J(f(b) <= f(a) * (1 + 1e-13), f"{nm}|{a!r}|{b!r}", "does not decrease")
    # linear algebra in exact integers
    vs = lattice_vectors()
    kinds = [(np.float64, 1), (np.int64, 1), (np.int64, 3_000_000_000), (np.int32, 40_000), (np.float64, 10**7)]
    for (t, k), a in product(kinds, vs):
        va = np.array([k * x for x in a], t)
        want = k * sqrt(idot(a, a))
        states += 1
        got = J.run(f"norm|{t.__name__}|{k}|{a}", G.norm, va)
        J(got is not None and abs(got - want) <= 1e-14 * want, f"norm|{t.__name__}|{k}|{a}", lambda: f"norm {got!r}, not {want!r}")
        for b in vs if THOROUGH or k == 1 else vs[::3]:
            vb = np.array([k * x for x in b], t)
            states += 1
            key = f"{t.__name__}|{k}|{a}|{b}"
            d, c = J.run("dot|" + key, G.dot, va, vb), J.run("cross|" + key, G.cross, va, vb)
            wd, wc = float(k * k * idot(a, b)), np.array([float(k * k * x) for x in icross(a, b)])
            sc = k * k * sqrt(idot(a, a) * idot(b, b))
            J(d is not None and abs(d - wd) <= 1e-15 * sc * 4, "dot|" + key, lambda: f"dot product {d!r}, not {wd!r}")
            J(c is not None and np.shape(c) == (3,) and np.abs(c - wc).max() <= 4e-15 * sc, "cross|" + key, lambda: f"cross product {c}, not {wc}")
    rep.sample({"arguments of c2 and c3": len(psis) * 2, "vectors": len(vs)})
    return finish(
        rep, J.n,
        "every listed argument of the Stumpff functions (around every seam between formulas) "
        "against rational series; all pairs of integer vectors of several types against exact integers",
        states,
    )


# ------------------------------------------------------------------ C23
def checkers(rep):
    from lamberthub.utils import assertions as A

    J = Judge(rep)
    tiny, big = 5e-324, 1.7e308
    pos = [tiny, 1e-300, 1e-12, 0.5, 1.0, 7, 398600.4418, 1.3e20, big, np.float64(3.0), np.int64(4)]
    neg = [0, 0.0, -0.0, -tiny, -1e-12, -1, -398600.0, -big, nan, inf, -inf, np.float64("nan")]
    vec_ok = [
        (1, 0, 0), (0, 0, 1e-12), (0, -1e-300, 0), (1e-9, 1e-9, 1e-9), (7000.0, 0.0, -0.0), (1e12, -3e12, 5.0),
        (1.0, 1e-16, 0), (nextafter(1.0, 2), 0, 0), (-1, 0, 0), (0.1, 0.2, 0.3), (0.1, 0.2, nextafter(0.3, 1)),
        (1e8, 1.0, 1.0), (1e8, 1.0, 1.0 + 1e-9), (2, 2, 2), (1e-9, 1e-9, 1.1e-9),
    ]  # fmt: skip
    vec_bad = [
        (0, 0, 0), (-0.0, 0.0, 0.0), (nan, 0, 0), (1, inf, 0), (1, 2, -inf), (nan, nan, nan), (inf, inf, inf),
        (1, 2), (1, 2, 3, 4), (1,), (), ((1, 2, 3),), ((1,), (2,), (3,)), 5.0,
    ]  # fmt: skip
    ms_ok, ms_bad = [0, 1, 2, 17, np.int64(0), np.int64(3), np.int32(2)], [-1, -2, -1000, np.int64(-1), np.int32(-7)]
    states = 0

    def verdict(fn, *args):
        try:
            r = fn(*args)
        except ValueError:
            return False
        return r if r is True else f"returned {r!r}"

    def demand(fn, args, ok):
        nonlocal states
        states += 1
        k = f"{fn.__name__}|{args!r}"
        try:
            got = verdict(fn, *args)
        except Exception as exc:  # noqa: BLE001
            got = f"{type(exc).__name__}: {exc}"
        J(got is ok, k, lambda: f"{'accepted' if got is True else 'refused' if got is False else got} "
          f"{'valid' if ok else 'invalid'} input")

    for x in pos + neg:
        demand(A.assert_gravitational_parameter_is_positive, (x,), x in pos)
        demand(A.assert_time_of_flight_is_positive, (x,), x in pos)
    for m in ms_ok + ms_bad:
        demand(A.assert_number_of_revolutions_not_negative, (m,), m in ms_ok)
    arr = lambda v: np.array(v, float)  # noqa: E731
    for v in vec_ok + vec_bad:
        demand(A.assert_position_vector_is_valid, (arr(v),), any(v is w for w in vec_ok))
    for i, j in product(range(len(vec_ok)), repeat=2):
        demand(A.assert_position_vectors_are_valid, (arr(vec_ok[i]), arr(vec_ok[j])), i != j)
    for v, w in product(vec_bad, vec_ok + vec_bad):
        demand(A.assert_position_vectors_are_valid, (arr(v), arr(w)), False)
        demand(A.assert_position_vectors_are_valid, (arr(w), arr(v)), False)
    # everything at once: accepted if and only if every part is
    va, vb = vec_ok[:6] + vec_bad[:6], vec_ok[3:9] + vec_bad[3:9]
    mus, tofs, Ms = [1e-12, 1, 398600.4418, 0, -1.0, nan, inf], [1e-9, 5.0, 1e12, 0, -2, nan, inf], [0, 3, -1]
    for mu, a, b, t, m in product(mus, va, vb, tofs, Ms):
        ok = 0 < mu < inf and 0 < t < inf and m >= 0 and any(a is x for x in vec_ok) and any(b is x for x in vec_ok) and a is not b
        demand(A.assert_parameters_are_valid, (mu, arr(a), arr(b), t, m), ok)
    for x in (tiny, 1e-12, 0.5, pi / 2, 3.0, nextafter(pi, 0), pi, nextafter(pi, 4), 4.0, TAU, nextafter(TAU, 0), 0.0, -0.0):
        demand(A.assert_transfer_angle_not_zero, (x,), x != 0)
        demand(A.assert_transfer_angle_not_pi, (x,), x != pi)
    rep.sample({"mu": mus, "r1": [str(v) for v in va], "tof": tofs, "M": Ms})
    return finish(
        rep, J.n,
        "every combination of valid and invalid values of all arguments: accepted (True) if "
        "and only if each is valid, ValueError otherwise",
        states,
    )


def main(pid):
    rep = harness.Report(pid, "model_checking")
    return {"C19": transfer, "C20": anomalies, "C21": elements, "C22": algebra, "C23": checkers}[pid](rep)
