"""Finite families of Lambert problems whose exact answer is known beforehand.

A state is (rho, theta, M, f, frame, unit).  rho and theta fix the transfer
triangle, M the number of complete revolutions and f the orbit: x = f when M = 0,
and the fraction of the way from the minimum-time orbit (0) to the ends of the
branch (+-1) when M > 0; f > 0 is the low path.  frame and unit index FRAMES and
UNITS.
"""

from functools import lru_cache
from math import atan2, cos, hypot, pi, radians, sin, sqrt

import numpy as np

from mc import chart

#        (inclination, raan, argument of latitude of r1) of the *motion*
FRAMES = [
    (0.0, 0.0, 0.0),  # 0 equatorial, r1 on the x axis
    (0.6, 0.8, 1.1),  # 1 inclined prograde
    (pi - 0.4, 2.5, 0.3),  # 2 inclined retrograde
    (pi / 2, 0.0, 0.0),  # 3 exactly polar, upwards
    (pi, 0.0, 0.0),  # 4 equatorial retrograde
    (1.2, 4.0, 4.3),  # 5 inclined prograde, starts below the equator
    (0.0, 0.0, 2.1),  # 6 equatorial, r1 off axis
    (pi, 0.0, 4.0),  # 7 equatorial retrograde, r1 off axis
    (pi - 1.3, 5.5, 3.3),  # 8 steep retrograde
    (1e-3, 1.0, 0.4),  # 9 nearly equatorial
    (0.7, 0.0, pi),  # 10 inclined, r1 on the -x axis (descending node)
    (pi - 0.7, 3 * pi / 2, pi / 2),  # 11 retrograde, r1 in the x-z plane
]
#        (length of r1, gravitational parameter)
UNITS = [
    (1.0, 1.0),  # 0 canonical
    (7000.0, 398600.4418),  # 1 Earth, km
    (1.496e11, 1.32712440018e20),  # 2 Sun, m
    (0.01, 2.0e-5),  # 3 small numbers
    (7.0e6, 3.986004418e14),  # 4 Earth, m
    (1.0, 4 * pi**2),  # 5 Sun, au and years
    (42164.0, 1.0),  # 6 weak field
    (0.5, 1e6),  # 7 strong field
]


def rotation(inc, raan):
    ci, si, cr, sr = cos(inc), sin(inc), cos(raan), sin(raan)
    if inc == pi / 2:
        ci = 0.0
    if inc == pi:
        ci, si = -1.0, 0.0
    return np.array(
        [[cr, -sr * ci, sr * si], [sr, cr * ci, -cr * si], [0.0, si, ci]], float
    )


_ROT = [rotation(i, o) for i, o, _ in FRAMES]


@lru_cache(maxsize=None)
def xmin_cached(rho, theta, M):
    return chart.x_min(chart.lam(rho, theta)[0], M)


class Problem:
    __slots__ = (
        "state mu r1 r2 tof M prograde low x xm v1 v2 normal unit_v ll theta tof_min s T".split()
    )

    def args(self):
        return self.mu, self.r1.copy(), self.r2.copy(), self.tof

    def kwargs(self):
        return {"M": self.M, "is_prograde": self.prograde, "is_low_path": self.low}


def x_of(rho, theta, M, f):
    if M == 0:
        return f, None
    xm = xmin_cached(rho, theta, M)
    return (xm + f * (1 - xm) if f >= 0 else xm + f * (1 + xm)), xm


def build(state, x=None):
    """The problem of a state (with another orbit x of the same triangle, if given)."""
    rho, th, M, f, frame, unit = state
    theta = radians(th)
    p = Problem()
    p.state, p.M, p.theta = state, M, theta
    ll, s, c = chart.lam(rho, theta)
    x0, xm = x_of(rho, theta, M, f)
    if x is None:
        x = x0
    else:
        f = x - xm if M else x
    p.x, p.xm, p.ll, p.s = x, xm, ll, s
    L, mu = UNITS[unit]
    p.mu = mu
    p.unit_v = sqrt(mu / L)
    p.T = chart.tof_x(ll, x, M)
    k = sqrt(2.0 * mu / s**3) / L**1.5
    p.tof = p.T / k
    p.tof_min = chart.tof_x(ll, xm, M) / k if M else 0.0
    inc, raan, u = FRAMES[frame]
    R = _ROT[frame]

    def vec(ang, a, b):
        # a along the radius, b along the motion, at argument of latitude ang
        ca, sa = cos(ang), sin(ang)
        return R @ np.array([a * ca - b * sa, a * sa + b * ca, 0.0])

    vr1, vt1, vr2, vt2 = chart.velocities(rho, theta, x)
    p.r1 = L * vec(u, 1.0, 0.0)
    p.r2 = L * vec(u + theta, rho, 0.0)
    p.v1 = p.unit_v * vec(u, vr1, vt1)
    p.v2 = p.unit_v * vec(u + theta, vr2, vt2)
    p.normal = R[:, 2]
    if inc == pi / 2:
        # no vertical component: prograde is the short way, by convention
        p.prograde = th < 180
    else:
        p.prograde = bool(p.normal[2] > 0)
    p.low = bool(f > 0) if M else True
    return p


def error(p, v1, v2, soft=False):
    """Largest relative velocity error of an answer (nan when not finite).

    soft: relative to the circular speed where the velocity is smaller than that,
    as it is at the apsides of nearly rectilinear orbits.
    """
    v1, v2 = np.asarray(v1, float), np.asarray(v2, float)
    if v1.shape != (3,) or v2.shape != (3,) or not np.isfinite(v1).all() or not np.isfinite(v2).all():
        return float("nan")
    n1, n2 = sqrt(p.v1 @ p.v1), sqrt(p.v2 @ p.v2)
    if soft:
        n1 = max(n1, sqrt(p.mu / sqrt(p.r1 @ p.r1)))
        n2 = max(n2, sqrt(p.mu / sqrt(p.r2 @ p.r2)))
    a = np.abs(v1 - p.v1).max() / n1
    b = np.abs(v2 - p.v2).max() / n2
    return max(a, b)


REJECT = (ValueError, RuntimeError)


def call(solver, p, soft=False, **kw):
    """('ok', error, v1, v2, rest) | ('reject', message) | ('other', repr)."""
    k = p.kwargs()
    k.update(kw)
    try:
        out = solver(*p.args(), **k)
    except REJECT as exc:
        return ("reject", f"{type(exc).__name__}: {exc}"[:100])
    except Exception as exc:  # noqa: BLE001
        return ("other", f"{type(exc).__name__}: {exc}"[:100])
    return ("ok", error(p, out[0], out[1], soft), out[0], out[1], out[2:])


def key(solver_name, state, extra=""):
    rho, th, M, f, frame, unit = state
    return f"{solver_name}|rho={rho:g}|th={th:g}|M={M}|f={f:.9g}|frame={frame}|unit={unit}{extra}"
