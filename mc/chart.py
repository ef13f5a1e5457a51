"""Reference model: the Lancaster-Blanchard chart of Lambert's problem, forwards.

A *state* of the model is an orbit arc: (rho, theta, M, x) plus a frame (scale,
gravitational parameter, orientation, sense).  Every quantity the solvers have to
recover (time of flight, both velocities) follows from a state in closed form, so
the reference contains no root finder, no iteration budget and no tolerance.
"""

from math import acos, acosh, asinh, cos, cosh, pi, sin, sinh, sqrt

import numpy as np


def lam(rho, theta):
    """Return (lambda, s, c) of the transfer triangle with r1 = 1, r2 = rho."""
    c = sqrt((1.0 - rho) ** 2 + 4.0 * rho * sin(theta / 2) ** 2)
    s = (1.0 + rho + c) / 2.0
    return sqrt(rho) * cos(theta / 2) / s, s, c


def _hyp(z):
    """2F1(3, 1; 5/2; z) for |z| < 1 by its own series."""
    total, term, k = 1.0, 1.0, 0
    while True:
        term *= (3.0 + k) * (1.0 + k) / (2.5 + k) * z / (k + 1.0)
        if total + term == total:
            return total
        total += term
        k += 1


def tof_x(ll, x, M):
    """Non-dimensional time of flight T(x; lambda, M)."""
    u = (1.0 - x) * (1.0 + x)
    y = sqrt(1.0 - ll * ll * u)
    if M == 0 and abs(x - 1.0) < 0.2:
        eta = y - ll * x
        s1 = 0.5 * (1.0 - ll - x * eta)
        return 0.5 * (eta**3 * (4.0 / 3.0) * _hyp(s1) + 4.0 * ll * eta)
    if x < 1.0:
        g = min(1.0, max(-1.0, x * y + ll * u))
        psi = acos(g)
        # arccos loses digits near its ends: recover psi from its sine there
        f = (y - x * ll) * sqrt(u)
        if abs(g) > 0.7:
            psi = np.arctan2(f, g)
        return ((psi + M * pi) / sqrt(u) - x + ll * y) / u
    psi = asinh((y - x * ll) * sqrt(-u))
    return (psi / sqrt(-u) - x + ll * y) / u


def dtof_x(ll, x, M, t=None):
    """dT/dx (undefined at x = 1)."""
    t = tof_x(ll, x, M) if t is None else t
    u = (1.0 - x) * (1.0 + x)
    y = sqrt(1.0 - ll * ll * u)
    return (3.0 * t * x - 2.0 + 2.0 * ll**3 * x / y) / u


def x_min(ll, M):
    """Location of the minimum of T(x) for M >= 1 (bisection on dT/dx)."""
    lo, hi = -0.999999, 0.999999
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if dtof_x(ll, mid, M) < 0:
            lo = mid
        else:
            hi = mid
        if hi - lo < 1e-15:
            break
    return 0.5 * (lo + hi)


def velocities(rho, theta, x, mu=1.0):
    """(vr1, vt1, vr2, vt2) of the arc in its own plane, r1 = 1."""
    ll, s, c = lam(rho, theta)
    y = sqrt(1.0 - ll * ll * (1.0 - x) * (1.0 + x))
    gam = sqrt(mu * s / 2.0)
    rr = (1.0 - rho) / c
    sig = 2.0 * sqrt(rho) * sin(theta / 2) / c
    w = y + ll * x if ll * x > 0 else (1.0 - ll * ll) / (y - ll * x)
    vr1 = gam * ((ll * y - x) - rr * (ll * y + x))
    vr2 = -gam * ((ll * y - x) + rr * (ll * y + x)) / rho
    vt = gam * sig * w
    return vr1, vt, vr2, vt / rho


# --------------------------------------------------------------------------
# An independent second reference: the two-body flow itself.


def _c2c3(psi):
    if psi > 1e-2:
        q = sqrt(psi)
        return 2.0 * sin(q / 2) ** 2 / psi, (q - sin(q)) / (psi * q)
    if psi < -1e-2:
        q = sqrt(-psi)
        return 2.0 * sinh(q / 2) ** 2 / -psi, (sinh(q) - q) / (-psi * q)
    a, b, t2, t3 = 0.0, 0.0, 0.5, 1.0 / 6.0
    for k in range(1, 12):
        a += t2
        b += t3
        t2 *= -psi / ((2 * k + 1) * (2 * k + 2))
        t3 *= -psi / ((2 * k + 2) * (2 * k + 3))
    return a, b


def propagate(mu, r, v, dt):
    """Two-body propagation by a bracketed universal Kepler equation."""
    r = np.asarray(r, float)
    v = np.asarray(v, float)
    rn = sqrt(r @ r)
    vr = r @ v
    sm = sqrt(mu)
    alpha = 2.0 / rn - (v @ v) / mu

    def t_of(chi):
        c2, c3 = _c2c3(alpha * chi * chi)
        return (
            chi**3 * c3 + vr / sm * chi * chi * c2 + rn * chi * (1 - alpha * chi * chi * c3)
        ) / sm

    hi = sm * dt / rn
    lo = 0.0
    n = 0
    while True:
        try:
            if t_of(hi) >= dt:
                break
        except OverflowError:
            break
        lo = hi
        hi *= 2.0
        n += 1
        if n > 200:
            raise ArithmeticError("no bracket")
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        try:
            below = t_of(mid) < dt
        except OverflowError:
            below = False
        if below:
            lo = mid
        else:
            hi = mid
        if hi - lo <= 4e-16 * hi:
            break
    chi = 0.5 * (lo + hi)
    c2, c3 = _c2c3(alpha * chi * chi)
    f = 1.0 - chi * chi * c2 / rn
    g = dt - chi**3 * c3 / sm
    r2 = f * r + g * v
    r2n = sqrt(r2 @ r2)
    gd = 1.0 - chi * chi * c2 / r2n
    fd = sm / (rn * r2n) * chi * (alpha * chi * chi * c3 - 1.0)
    return r2, fd * r + gd * v, chi * sqrt(abs(alpha)) if alpha > 0 else 0.0
