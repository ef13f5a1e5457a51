"""C27: the auxiliary routines that the solver modules publish next to the solvers.

The state is an orbit arc of the chart (mc/chart.py), so that everything a routine
documents (elements of the orbit, times of flight, derivatives, series) is known
beforehand in closed form, or as an exact rational number.
"""

import inspect
from fractions import Fraction
from itertools import product
from math import asin, asinh, atan2, cos, factorial, inf, pi, radians, sin, sqrt

import numpy as np

from mc import chart, harness, lattice
from mc.checks import solve
from mc.checks.geometry import Judge, near_angle
from mc.harness import THOROUGH

TAU = 2 * pi


def routine(module, name, *params):
    """The routine, or None if the module does not publish it in this form."""
    fn = getattr(module, name, None)
    if fn is None:
        return None
    try:
        have = list(inspect.signature(getattr(fn, "py_func", fn)).parameters.values())
    except (TypeError, ValueError):
        return None
    names = [p.name for p in have]
    if names[: len(params)] != list(params):
        return None
    if any(p.default is p.empty and p.kind in (p.POSITIONAL_OR_KEYWORD, p.POSITIONAL_ONLY) for p in have[len(params):]):
        return None
    return fn


# ---------------------------------------------------------------- Taylor jets
class Jet:
    """Truncated Taylor series c0 + c1 h + c2 h^2 + c3 h^3."""

    def __init__(self, *c):
        self.c = (list(c) + [0.0] * 4)[:4]

    @staticmethod
    def of(v):
        return v if isinstance(v, Jet) else Jet(v)

    def __add__(self, o):
        return Jet(*(a + b for a, b in zip(self.c, Jet.of(o).c)))

    __radd__ = __add__

    def __neg__(self):
        return Jet(*(-a for a in self.c))

    def __sub__(self, o):
        return self + -Jet.of(o)

    def __rsub__(self, o):
        return Jet.of(o) - self

    def __mul__(self, o):
        b = Jet.of(o).c
        return Jet(*(sum(self.c[i] * b[k - i] for i in range(k + 1)) for k in range(4)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        b, q = Jet.of(o).c, []
        for k in range(4):
            q.append((self.c[k] - sum(q[i] * b[k - i] for i in range(k))) / b[0])
        return Jet(*q)

    def sqrt(self):
        q = [sqrt(self.c[0])]
        for k in range(1, 4):
            q.append((self.c[k] - sum(q[i] * q[k - i] for i in range(1, k))) / (2 * q[0]))
        return Jet(*q)

    def compose(self, taylor):
        """The function with these Taylor coefficients at c0."""
        h = Jet(0.0, *self.c[1:])
        r = Jet(taylor[3])
        for k in (2, 1, 0):
            r = r * h + taylor[k]
        return r


def _hyp_taylor(z):
    """Taylor coefficients of 2F1(3, 1; 5/2; z)."""
    out, coef = [], 1.0
    for k in range(4):
        a, b, c = 3.0 + k, 1.0 + k, 2.5 + k
        total = term = 1.0
        j = 0
        while True:
            term *= (a + j) * (b + j) / (c + j) * z / (j + 1.0)
            if total + term == total:
                break
            total += term
            j += 1
        out.append(coef * total)
        coef *= a * b / c / (k + 1)
    return out


def time_jet(ll, x, M):
    """T(x) and its first three derivatives."""
    if M == 0 and abs(x - 1) < 0.25:
        X = Jet(x, 1.0)
        y = (1 - ll * ll * (1 - X) * (1 + X)).sqrt()
        eta = y - ll * X
        s1 = 0.5 * (1 - ll - X * eta)
        t = 0.5 * (eta * eta * eta * (4 / 3) * s1.compose(_hyp_taylor(s1.c[0])) + 4 * ll * eta)
        return [t.c[k] * factorial(k) for k in range(4)]
    u = (1 - x) * (1 + x)
    y = sqrt(1 - ll * ll * u)
    t = chart.tof_x(ll, x, M)
    q = ll / y
    d1 = (3 * t * x - 2 + 2 * ll**3 * x / y) / u
    d2 = (3 * t + 5 * x * d1 + 2 * (1 - ll * ll) * q**3) / u
    d3 = (7 * x * d2 + 8 * d1 - 6 * (1 - ll * ll) * q**5 * x) / u
    return [t, d1, d2, d3]


def tol_of(x):
    """How much round-off the closed forms lose next to the parabola."""
    return 1e-12 / min(1.0, abs(1 - x)) ** 2


# ------------------------------------------------------- transverse eccentricity
def conics(rep, J):
    from lamberthub.ecc_solvers import utils as U

    geometry = routine(U, "get_geometry", "r1", "r2", "is_prograde")
    fundamental = routine(U, "get_fundamental_ellipse_properties", "r1_norm", "r2_norm", "c_norm")
    eap = routine(U, "eap_from_eccT", "ecc_T", "geometry")
    periapsis = routine(U, "w_at_eccT", "ecc_T", "ecc_F", "w_c")
    anomalies = routine(U, "get_true_anomalies", "w", "dtheta")
    tof_at = routine(U, "kepler_tof_at_eccT", "ecc_T", "mu", "geometry")
    coe_at = routine(U, "coe_at_eccT", "ecc_T", "r1", "r2", "sense")
    parts = {
        "eccF": routine(U, "get_eccF", "r1_norm", "r2_norm", "c_norm"),
        "aF": routine(U, "get_aF", "r1_norm", "r2_norm"),
        "pF": routine(U, "get_pF", "a_F", "ecc_F"),
        "ecc": routine(U, "ecc_at_eccT", "ecc_T", "ecc_F"),
        "p": routine(U, "p_at_eccT", "ecc_T", "r1_norm", "r2_norm", "c_norm", "dtheta", "p_F"),
        "a": routine(U, "a_at_eccT", "ecc_T", "ecc_F", "p"),
    }
    rho = (0.02, 0.15, 0.4, 0.723, 1.0, 1.3, 2.2, 8.0)
    th = (3, 20, 45, 90, 120, 165, 179, 181, 200, 250, 300, 345, 357)
    xs = (-0.9, -0.5, -0.1, 0.0, 0.3, 0.6, 0.9, 1.0, 1.1, 1.5, 2.5)
    frames = [(1, 0), (8, 1), (0, 2), (4, 3), (3, 0), (5, 5)]
    if THOROUGH:
        rho = (*rho, 0.05, 0.9, 1 + 1e-7, 1.7, 3.0, 40.0)
        th = (*th, 1, 10, 30, 60, 75, 105, 135, 150, 172, 188, 215, 270, 330)
        xs = (*xs, -0.97, -0.7, -0.3, 0.15, 0.45, 0.75, 0.97, 1.03, 1.3, 4.0)
        frames = [(f, f % len(lattice.UNITS)) for f in range(len(lattice.FRAMES))]
    n = 0
    for r, t, x, (fr, un) in product(rho, th, xs, frames):
        s = (r, t, 0, x, fr, un)
        p = lattice.build(s)
        n += 1
        k = f"rho={r:g}|theta={t:g}|x={x:g}|frame={fr}|unit={un}"
        L = sqrt(p.r1 @ p.r1)
        theta = radians(t)
        vr1, vt1, _, _ = chart.velocities(r, theta, x)
        ll, _, c = chart.lam(r, theta)
        # in the plane of the orbit, with axes along r1 and along the motion
        e = np.array([vt1 * vt1 - 1, -vr1 * vt1])
        P = vt1 * vt1
        ch = np.array([r * cos(theta) - 1, r * sin(theta)]) / c
        eF, eT = float(e @ ch), float(e @ np.array([-ch[1], ch[0]]))
        wc = atan2(ch[1], ch[0]) % TAU
        E = sqrt(eF * eF + eT * eT)
        A = P / (1 - E * E) if E != 1 else inf
        geo = (L, r * L, c * L, theta, wc)
        amp = 1e-12 * (1 + max(r, 1 / r)) * (1 + 1 / min(theta, TAU - theta, abs(pi - theta)))
        if geometry is not None:
            g = J.run(k + "|geometry", geometry, p.r1.copy(), p.r2.copy(), p.prograde)
            if g is not None:
                ok = all(abs(a - b) <= amp * L for a, b in zip(g[:3], geo)) and all(near_angle(a, b, amp) for a, b in zip(g[3:], geo[3:]))
                J(ok, k + "|geometry", lambda: f"geometry {tuple(map(float, g))}, not {geo}")
        EF, AF = (1 - r) / c, (1 + r) / 2
        PF = AF * (1 - EF * EF)
        want = (EF, AF * L, PF * L)

        def close(got, exp, tol):
            return all(abs(float(a) - b) <= tol * (1 + abs(b)) for a, b in zip(got, exp))

        J(abs(EF - eF) <= 1e-10 * (1 + E), k + "|model", "the model disagrees with itself")
        if fundamental is not None:
            f = J.run(k + "|fundamental", fundamental, *geo[:3])
            if f is not None:
                J(close((f[0], f[1] / L, f[2] / L), (EF, AF, PF), 1e-10), k + "|fundamental", lambda: f"fundamental ellipse {f}, not {want}")
        for name, args, exp, unit in (
            ("eccF", geo[:3], EF, 1), ("aF", geo[:2], AF, L), ("pF", (AF * L, EF), PF, L),
            ("ecc", (eT, EF), E, 1), ("p", (eT, L, r * L, c * L, theta, PF * L), P, L), ("a", (eT, EF, P * L), A, L),
        ):  # fmt: skip
            if parts[name] is None or (name == "a" and abs(1 - E) < 1e-6):
                continue
            got = J.run(k + "|" + name, parts[name], *args)
            if got is not None:
                J(abs(float(got) / unit - exp) <= amp * 1e2 * (1 + abs(exp)) * (1 + 1 / max(1e-6, abs(1 - E)) if name == "a" else 1), k + "|" + name, lambda: f"{name} is {got!r}, not {exp * unit!r}")
        if eap is not None and abs(1 - E) > 1e-6:
            got = J.run(k + "|eap", eap, eT, geo)
            if got is not None:
                tol = amp * 1e2 * (1 + E * E) / min(1.0, abs(1 - E))
                J(close((got[0], got[1] / A / L, got[2] / L), (E, 1.0, P), tol), k + "|eap", lambda: f"eccentricity, semi-major axis and parameter {tuple(map(float, got))}, not {(E, A * L, P * L)}")
        w = atan2(e[1], e[0])
        if periapsis is not None and E > 1e-4:
            got = J.run(k + "|periapsis", periapsis, eT, EF, wc)
            if got is not None:
                J(near_angle(float(got), w, 1e-9 / E), k + "|periapsis", lambda: f"direction of the periapsis {got!r}, not {w!r}")
        if anomalies is not None:
            got = J.run(k + "|anomalies", anomalies, w, theta)
            if got is not None:
                J(near_angle(got[0], -w, 1e-12) and near_angle(got[1], theta - w, 1e-12), k + "|anomalies", lambda: f"true anomalies {got}, not {(-w, theta - w)}")
        if tof_at is not None and abs(1 - E) > 3e-3:
            got = J.run(k + "|time", tof_at, eT, p.mu, geo)
            if got is not None:
                tol = 1e-10 * (1 + E) ** 2 / min(1.0, abs(1 - E)) ** 2 + amp * 100
                J(abs(float(got) / p.tof - 1) <= tol, k + "|time", lambda: f"time of flight {got!r}, not {p.tof!r}")
        if coe_at is not None and t not in (0, 180):
            got = J.run(k + "|elements", coe_at, eT, p.r1.copy(), p.r2.copy(), p.prograde)
            if got is None:
                continue
            gp, ge, gi, go, gw, g1, g2 = map(float, got)
            N = np.array([cos(go), sin(go), 0.0])
            W = np.array([sin(go) * sin(gi), -cos(go) * sin(gi), cos(gi)])
            Q = np.cross(W, N)
            tol = amp * 1e4 * (1 + E)
            bad = np.abs(W - p.normal).max() > 1e-7
            for nu, pos in ((g1, p.r1), (g2, p.r2)):
                d = gp / (1 + ge * cos(nu)) * (cos(gw + nu) * N + sin(gw + nu) * Q)
                bad = bad or not np.abs(d - pos).max() <= 1e-6 * sqrt(pos @ pos) * (1 + E)
            J(not bad, k + "|elements", lambda: f"the elements {tuple(map(float, got))} do not describe an orbit through both positions")
            J(abs(ge - E) <= tol and abs(gp / L - P) <= tol * (1 + P), k + "|elements of the arc", lambda: f"eccentricity {ge!r} and parameter {gp!r}, not {E!r} and {P * L!r}")
    return n


# -------------------------------------------------------------- Thorne's routines
def lagrange(rep, J):
    from lamberthub.series_solvers import thorne as S

    par = routine(S, "get_parabolic_tof", "mu", "s", "c", "mp")
    emin = routine(S, "get_minimum_energy_tof", "mu", "s", "c", "mp")
    tof_at = routine(S, "lagrange_tof", "mu", "s", "c", "a", "mp", "branch")
    axis = routine(S, "get_semimajor_axis", "mu", "s", "c", "tof", "t_p", "t_min", "mp", "maxiter", "atol", "rtol")
    x_at = routine(S, "get_x_from_semimajor_axis", "a", "s", "branch")
    y_at = routine(S, "get_y_from_x", "x", "s", "c", "mp")
    lam = routine(S, "get_lambda", "s", "c", "mp")
    build = routine(S, "reconstruct", "x", "y", "mu", "r1", "r2", "s", "c", "mp")
    rho = (0.02, 0.15, 0.4, 0.723, 1.0, 1.3, 2.2, 8.0)
    th = (3, 20, 45, 90, 120, 165, 179, 181, 200, 250, 300, 345, 357)
    xs = (-0.95, -0.5, -0.1, 0.1, 0.3, 0.6, 0.9, 1.1, 1.5, 2.5)
    if THOROUGH:
        rho = (*rho, 0.05, 0.9, 1 + 1e-7, 1.7, 3.0, 40.0)
        th = (*th, 1, 10, 30, 60, 75, 105, 135, 150, 172, 188, 215, 270, 330)
        xs = (*xs, -0.99, -0.7, -0.3, 0.02, 0.45, 0.75, 0.97, 1.03, 1.3, 4.0)
    n = 0
    for r, t, x, (fr, un) in product(rho, th, xs, [(1, 0), (8, 1), (5, 3), (4, 7)]):
        st = (r, t, 0, x, fr, un)
        p = lattice.build(st)
        n += 1
        L, mu = lattice.UNITS[un]
        ll, s, c = chart.lam(r, radians(t))
        unit = sqrt(L**3 * s**3 / (2 * mu))
        mp = -1 if t < 180 else 1
        k = f"rho={r:g}|theta={t:g}|x={x:g}|frame={fr}|unit={un}"
        a = s * L / (2 * (1 - x * x))
        branch = "H" if x > 1 else "A" if x > 0 else "B"
        S_, C_ = s * L, c * L
        # s - c loses digits when the angle is close to half a turn
        amp = 1e-14 * s / (s - c) + 1e-12

        def rel(fn, name, args, want, tol, text):
            if fn is None:
                return
            got = J.run(f"{k}|{name}", fn, *args)
            if got is not None:
                J(abs(float(got) - want) <= tol * abs(want), f"{k}|{name}", lambda: f"{text} {float(got)!r}, not {want!r}")

        rel(par, "parabola", (mu, S_, C_, mp), unit * chart.tof_x(ll, 1.0, 0), amp * 10, "parabolic time of flight")
        rel(emin, "minimum energy", (mu, S_, C_, mp), unit * chart.tof_x(ll, 0.0, 0), max(amp, 1e-7), "minimum-energy time of flight")
        u = abs(1 - x * x)
        rel(tof_at, "time", (mu, S_, C_, a, mp, branch), p.tof, amp * 10 + (1e-11 + 1e-15 / max(1e-3, x * x)) / min(1, u) ** 1.5, "time of flight")
        rel(x_at, "x", (a, S_, branch), x, 1e-13 / x**2 + 1e-12, "the Lancaster-Blanchard variable is")
        y = sqrt(1 - ll * ll * (1 - x * x))
        rel(y_at, "y", (x, S_, C_, mp), y, amp, "the second Lancaster-Blanchard variable is")
        rel(lam, "lambda", (S_, C_, mp), ll, amp, "the transfer-angle parameter is")
        if axis is not None:
            tp, tm = unit * chart.tof_x(ll, 1.0, 0), unit * chart.tof_x(ll, 0.0, 0)
            got = J.run(k + "|axis", axis, mu, S_, C_, p.tof, tp, tm, mp, 400, 1e-12 * L, 1e-12)
            if got is not None:
                J(got[1] == branch, k + "|branch", lambda: f"the orbit is of branch {branch}, not {got[1]}")
                J(abs(got[0] / a - 1) <= 1e-8 / min(1, u) ** 2 + 1e4 * amp and got[2] >= 1, k + "|axis", lambda: f"semi-major axis {got[0]!r}, not {a!r}")
        if build is not None:
            got = J.run(k + "|velocities", build, x, y, mu, p.r1.copy(), p.r2.copy(), S_, C_, mp)
            if got is not None:
                sp = sqrt(max(p.v1 @ p.v1, p.v2 @ p.v2))
                d = max(np.abs(np.subtract(a_, b_)).max() for a_, b_ in zip(got, (p.v1, p.v2)))
                J(d <= 1e-7 * sp * (1 + max(r, 1 / r)), k + "|velocities", lambda: f"velocities are off by {d / sp:.2g} of the speed")
    return n


# ------------------------------------------------------------------ Thorne's series
def _fmul(a, b, n):
    out = [Fraction(0)] * n
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b[: n - i]):
                out[i + j] += x * y
    return out


def series(rep, J):
    """Coefficients of the series and of its reversion, in rational arithmetic.

    With k = (s-c)/s = q^2 the time of flight over the parabolic one is
    1 + tau, tau = sum A_n z^n, z = s / (2 a).
    """
    from lamberthub.series_solvers import thorne as S

    A_of = routine(S, "get_A_array", "s", "c", "maxiter", "mp")
    Q_of = routine(S, "get_Q_matrix", "A_array", "maxiter")
    B_of = routine(S, "get_B_array", "A_array", "Q_matrix", "maxiter")
    qs = [Fraction(i, 8) for i in range(0, 8)]
    ns = (1, 2, 3, 5, 8, 12)
    if THOROUGH:
        qs = [Fraction(i, 16) for i in range(0, 16)]
        ns = tuple(range(1, 19))

    def poch(a, n):
        v = Fraction(1)
        for i in range(n):
            v *= a + i
        return v

    h = Fraction(1, 2)
    count = 0
    for q, mp, N in product(qs, (-1, 1), ns):
        count += 1
        key = f"q={q}|sign={mp}|terms={N}"
        # the series of Lagrange's equation in powers of z
        A = [
            (1 + mp * q ** (2 * n + 3)) / (1 + mp * q**3) * poch(h, n) * poch(3 * h, n) / poch(5 * h, n) / factorial(n)
            for n in range(1, N + 1)
        ]
        fA = [float(a) for a in A]

        def same(got, want, tol, size=1.0):
            return abs(float(got) - float(want)) <= tol * (abs(float(want)) + 1e-300) * size

        if A_of is not None:
            got = J.run(key + "|A", A_of, 1.0, float(1 - q * q), N, mp)
            if got is not None:
                J(len(got) == N and all(same(g, a, 1e-12) for g, a in zip(got, A)), key + "|A", lambda: f"coefficients of the series {list(map(float, got))[:4]}, not {fA[:4]}")
        # z = sum_i R_i tau^i by substitution, term by term
        R = [Fraction(0)] * (N + 1)
        for i in range(1, N + 1):
            tot, pw = Fraction(0), [Fraction(1)] + [Fraction(0)] * N
            for n in range(1, i + 1):
                pw = _fmul(pw, R, N + 1)
                tot += A[n - 1] * pw[i]
            R[i] = ((1 if i == 1 else 0) - tot) / A[0]
        powers, pw = [], [Fraction(1)] + [Fraction(0)] * N
        for _ in range(N):
            pw = _fmul(pw, R, N + 1)
            powers.append(pw)
        # Q[i, j] is the coefficient of tau^i in z^j
        Qx = [[powers[j][i + 1] for j in range(N)] for i in range(N)]
        amp = 1e-13 * 6.0**N
        Q = None
        if Q_of is not None:
            Q = J.run(key + "|Q", Q_of, np.array(fA), N)
            if Q is not None:
                mag = [max(abs(float(v)) for v in row) for row in Qx]
                ok = np.shape(Q) == (N, N) and all(abs(float(Q[i][j]) - float(Qx[i][j])) <= amp * mag[i] for i in range(N) for j in range(N))
                J(ok, key + "|Q", lambda: "the matrix is not the one of the reverted series")
        if B_of is not None:
            # tau / z = A_1 + A_2 z + ... in powers of tau
            B = [A[0]] + [sum(powers[m - 1][n - 1] * A[m] for m in range(1, n)) for n in range(2, N + 1)]
            got = J.run(key + "|B", B_of, np.array(fA), np.array([[float(v) for v in row] for row in Qx]), N)
            if got is not None:
                J(len(got) == N and all(same(g, b, 1e-9, 1 + 6.0 ** (N - 6)) for g, b in zip(got, B)), key + "|B", lambda: f"inverted coefficients {list(map(float, got))[:4]}, not {[float(b) for b in B][:4]}")
    # the model itself: the series sums up to the time of flight
    for i, mp, zi in product(range(1, 8), (-1, 1), range(-4, 5)):
        q, z = i / 8, zi / 16
        ll = -mp * q
        x = sqrt(1 - z)
        tau = sum(
            float((1 + mp * Fraction(i, 8) ** (2 * n + 3)) / (1 + mp * Fraction(i, 8) ** 3) * poch(h, n) * poch(3 * h, n) / poch(5 * h, n) / factorial(n)) * z**n
            for n in range(1, 40)
        )
        want = chart.tof_x(ll, x, 0) / chart.tof_x(ll, 1.0, 0) - 1
        count += 1
        J(abs(tau - want) <= 1e-10, f"series|q={q}|sign={mp}|z={z}|model", lambda: f"the series gives {tau!r}, the chart {want!r}")
    return count


# ------------------------------------------------------------- Gooding's routines
def gooding(rep, J):
    from lamberthub.universal_solvers import gooding as G

    tl = routine(G, "tlamb", "m", "q", "qsqfm1", "x", "n")
    xl = routine(G, "xlamb", "m", "q", "qsqfm1", "tin", "maxiter", "atol", "rtol")
    vl = routine(G, "vlamb", "mu", "r1_norm", "r2_norm", "dtheta", "tof", "is_low_path", "maxiter", "atol", "rtol")
    rho = (0.05, 0.4, 1.0, 2.2, 8.0)
    th = (8, 45, 100, 150, 175, 185, 230, 290, 340)
    xs = (-0.9, -0.6, -0.3, -0.05, 0.0, 0.05, 0.3, 0.6, 0.77, 0.78, 0.9, 0.99, 1 - 1e-6, 1.0, 1 + 1e-6, 1.01, 1.1, 1.18, 1.19, 1.5, 3.0)
    fm = (-0.9, -0.6, -0.3, -0.1, 0.1, 0.3, 0.6, 0.9)
    ms = (1, 2, 5)
    if THOROUGH:
        rho = (*rho, 0.15, 0.8, 1.4, 30.0)
        th = (*th, 3, 20, 70, 130, 178, 182, 210, 260, 315, 355)
        xs = tuple(sorted({*xs, *(k / 20 for k in range(-18, 41))}))
        fm = tuple(sorted({*fm, *(k / 12 for k in range(-11, 12))} - {0.0}))
        ms = (1, 2, 3, 4, 6, 10)
    cases = [(r, t, 0, x) for r, t, x in product(rho, th, xs)]
    cases += [(r, t, M, f) for r, t, M, f in product(rho, th, ms, fm)]
    n = 0
    for r, t, M, f in cases:
        n += 1
        k = f"rho={r:g}|theta={t:g}|M={M}|f={f:g}"
        p = lattice.build((r, t, M, f, 1, 1))
        ll, s, c = chart.lam(r, radians(t))
        x, q, qf = p.x, ll, c / s
        u = abs((1 - x) * (1 + x))
        want = [2 * d for d in time_jet(ll, x, M)]
        # the closed forms cancel next to the parabola, once more per derivative; the
        # series is summed up to the precision of the time, not to that of the third
        # derivative (as published; the solver takes it from the closed forms only)
        direct = M or x < 0 or u > 0.4
        for order in (0, 1, 2, 3):
            if tl is None:
                break
            got = J.run(f"{k}|tlamb {order}", tl, M, q, qf, x, order)
            if got is None:
                continue
            for d in range(order + 1):
                lo = 1e-12 / (min(1.0, u) ** (d + 1)) if direct else (1e-10, 1e-9, 1e-8, 1e-4)[d]
                size = max(abs(want[d]), abs(want[0]) if direct else abs(want[d]), 1e-3)
                J(abs(float(got[d]) - want[d]) <= (lo + 1e-11) * size, f"{k}|tlamb {order}|{d}", lambda d=d: f"derivative {d} of the time of flight is {float(got[d])!r}, not {want[d]!r}")
        tin = want[0]
        if xl is not None and (M == 0 or abs(f) >= 0.05):
            got = J.run(f"{k}|xlamb", xl, M, q, qf, tin, 60, 1e-11, 1e-11)
            if got is not None:
                sols = [got[1]] + ([got[2]] if got[0] == 2 else [])
                J(got[0] == (1 if M == 0 else 2), f"{k}|number", lambda: f"{got[0]} solutions instead of {1 if M == 0 else 2}")
                near = min(abs(v - x) for v in sols)
                J(near <= 1e-7 * (1 + abs(x)), f"{k}|solutions", lambda: f"the orbit {x!r} is not among the solutions {sols}")
                for v in sols:
                    tv = chart.tof_x(ll, v, M)
                    J(abs(2 * tv / tin - 1) <= 1e-6, f"{k}|times", lambda v=v: f"the solution {v!r} does not take the time given")
                if M:
                    J(len(sols) == 2 and (sols[0] - p.xm) * (sols[1] - p.xm) < 0, f"{k}|sides", lambda: f"the solutions {sols} are not on both sides of the minimum {p.xm!r}")
        if vl is not None and (M == 0 or abs(f) >= 0.05):
            L, mu = lattice.UNITS[1]
            got = J.run(f"{k}|vlamb", vl, mu, L, r * L, radians(t) + TAU * M, p.tof, p.low, 60, 1e-11, 1e-11)
            if got is not None:
                w = [p.unit_v * v for v in chart.velocities(r, radians(t), x)]
                sp = max(map(abs, w))
                d = max(abs(float(a) - b) for a, b in zip(got, w)) / sp
                J(d <= 1e-6, f"{k}|vlamb", lambda: f"velocity components are off by {d:.2g}")
    return n


# --------------------------------------------------------- Izzo's hypergeometric function
def hypergeometric(rep, J):
    """2F1(3, 1; 5/2; x) by Euler's integral 3/2 int_0^1 (1 - t)^(1/2) (1 - x t)^(-3) dt."""
    from lamberthub.universal_solvers import izzo as I

    f = routine(I, "hyp2f1b", "x")
    if f is None:
        return 0
    # t = 1 - w^2, and w = d sinh(q): no peak is left for x close to one
    nodes, weights = np.polynomial.legendre.leggauss(200)
    xs = {0.0, -0.999, -0.99, 0.99, 0.999, -1e-9, 1e-9, 1e-300}
    xs |= {k / 64 for k in range(-63, 64)}
    if THOROUGH:
        xs |= {k / 4096 for k in range(-4090, 4091)}
    for x in sorted(xs):
        k = f"hyp2f1b({x!r})"
        # 3 int_0^1 w^2 / (1 - x + x w^2)^3 dw
        if x > 0:
            d = sqrt((1 - x) / x)
            top = asinh(1 / d)
            q = (nodes + 1) * top / 2
            w = d * np.sinh(q)
            jac = d * np.cosh(q) * top / 2
        else:
            w, jac = (nodes + 1) / 2, 0.5
        want = float((weights * jac * 3 * w * w / (1 - x + x * w * w) ** 3).sum())
        got = J.run(k, f, x)
        if got is not None:
            J(abs(float(got) - want) <= 1e-10 * abs(want), k, lambda: f"{float(got)!r}, not {want!r}")
    for x in (1.0, 1.5, 40.0, inf):
        got = J.run(f"hyp2f1b({x!r})", f, x)
        if got is not None:
            J(float(got) == inf, f"hyp2f1b({x!r})", lambda: f"{float(got)!r}, not infinite")
    return len(xs) + 4


def main(pid):
    rep = harness.Report(pid, "model_checking")
    rep.assumptions = [
        "the closed-form chart of mc/chart.py is right (selftest: two-body propagation)",
        "behaviour between the enumerated points is not observed",
    ]
    J = Judge(rep)
    states = {f.__name__: f(rep, J) for f in (conics, lagrange, series, gooding, hypergeometric)}
    rep.extra["states_by_family"] = states
    rep.sample({"conics": "rho=0.4|theta=120|x=0.3|frame=8|unit=1", "series": "q=3/8|sign=-1|terms=8"})
    return solve.finish(
        rep, J.n,
        "every point of a lattice of orbit arcs, of rational transfer parameters (series) and of "
        "branches: each published routine of the solver modules against closed forms and rational arithmetic",
        sum(states.values()),
    )
