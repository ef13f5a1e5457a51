"""The bounded families of states that the checks enumerate completely."""

from itertools import product

from mc.harness import THOROUGH
from mc.lattice import FRAMES, UNITS

RHO = (0.01, 0.15, 0.4, 0.723, 1.0, 1.524, 3.0, 8.0, 100.0)
TH = (3, 12, 20, 30, 45, 60, 75, 90, 105, 120, 135, 150, 165, 172, 178, 179.5)
TH = TH + tuple(360 - t for t in reversed(TH))
X0 = (-0.99, -0.9, -0.75, -0.5, -0.3, -0.1, 0.0, 0.1, 0.3, 0.5, 0.7, 0.85, 0.95, 0.99,
      1.0, 1.01, 1.05, 1.15, 1.3, 1.6, 2.0)  # fmt: skip
FM = (0.02, 0.05, 0.1, 0.2, 0.4, 0.6, 0.8, 0.9, 0.95, 0.98)
FM = tuple(-f for f in reversed(FM)) + FM
MS = (1, 2, 3, 4, 6, 9)
if THOROUGH:
    RHO = (0.01, 0.03, 0.07, 0.15, 0.27, 0.4, 0.55, 0.723, 0.85, 0.95, 0.999, 1.0, 1.05,
           1.2, 1.524, 2.0, 3.0, 5.2, 8.0, 19.2, 45.0, 100.0)  # fmt: skip
    TH = tuple(sorted((set(TH) | set(range(4, 357, 8)) | {90.5, 181.5, 270.5}) - {180}))
    X0 = tuple(sorted(set(X0) | {k / 20 for k in range(-19, 41)} | {0.999, 1.001, 0.01, -0.01}))
    FM = tuple(sorted(set(FM) | {k / 16 for k in range(-15, 16)} - {0.0}))
    MS = (1, 2, 3, 4, 5, 6, 8, 10, 15, 25)


def zero_core():
    return [(r, t, 0, x, 1, 0) for r, t, x in product(RHO, TH, X0)]


def zero_seams():
    """Where solvers change formulas: minimum energy, parabola, equal radii."""
    ks = (4, 6, 7, 8, 10) if not THOROUGH else (3, 4, 5, 6, 7, 8, 9, 10, 12)
    d = [s * 10.0**-k for k in ks for s in (1, -1)]
    rho = (0.3, 1 - 1e-4, 1.0, 1 + 1e-7, 2.5)
    th = (20, 90, 120, 200, 270, 330)
    if THOROUGH:
        rho, th = (0.05, *rho, 1 + 1e-10, 20.0), (5, *th, 60, 178, 182, 355)
    return [(r, t, 0, f, 1, 0) for r, t, f in product(rho, th, d + [1 + x for x in d])]


def zero_frames():
    rho = (0.4, 2.2)
    th = (12, 40, 110, 160, 200, 320)
    x = (-0.6, -0.1, 0.45, 1.2)
    if THOROUGH:
        rho, th = (0.15, 0.4, 0.9, 1.0, 2.2, 6.0), (3, *th, 15, 90, 135, 178, 225, 285, 345)
        x = (-0.9, *x, 0.2, 0.95, 1.0, 1.05)
    return [
        (r, t, 0, f, fr, u)
        for fr, u in product(range(len(FRAMES)), range(len(UNITS)))
        for r, t, f in product(rho, th, x)
    ]


def multi_core():
    return [(r, t, M, f, 2, 0) for r, t, M, f in product(RHO, TH, MS, FM)]


def multi_frames():
    rho, th, ms = (0.4, 1.0, 2.2), (40, 110, 200, 320), (1, 3)
    f = (-0.8, -0.3, 0.2, 0.6)
    if THOROUGH:
        rho, th, ms = (0.15, 0.4, 1.0, 2.2, 6.0), (12, *th, 75, 160, 250), (1, 2, 3, 5)
    return [
        (r, t, M, x, fr, u)
        for fr, u in product(range(len(FRAMES)), range(len(UNITS)))
        for r, t, M, x in product(rho, th, ms, f)
    ]


# Towards and beyond the edges: no answer is owed here, but a wrong one is a failure
EDGE_TH = (0.01, 0.03, 0.1, 0.5, 1, 178, 179, 179.9, 179.99)
EDGE_TH = EDGE_TH + tuple(360 - t for t in reversed(EDGE_TH))
EDGE_RHO = (1e-3, 0.05, 0.5, 1.0, 1.0 + 1e-9, 2.0, 30.0, 1e3)
EDGE_X = (-0.99999, -0.999, -0.97, -0.5, -1e-3, -1e-6, 0.0, 1e-6, 1e-3, 0.3, 0.9, 0.999,
          0.99999, 1 - 1e-7, 1 + 1e-9, 1 + 1e-7, 1.00001, 1.001, 1.1, 2.5, 4.0, 10.0, 30.0)  # fmt: skip
EDGE_F = (1e-4, 1e-3, 0.01, 0.3, 0.7, 0.99, 0.999, 0.9999)
EDGE_F = tuple(-f for f in reversed(EDGE_F)) + EDGE_F
EDGE_M = (1, 2, 5, 12, 40)


def edge_zero():
    mid = (40, 120, 175, 185, 240, 320)
    return [(r, t, 0, x, 5, 0) for r, t, x in product(EDGE_RHO, EDGE_TH + mid, EDGE_X)]


def edge_multi():
    mid = (40, 120, 240, 320)
    ms = EDGE_M if THOROUGH else (1, 3, 12)
    rho = EDGE_RHO if THOROUGH else (1e-3, 0.3, 1.0, 1.0 + 1e-9, 5.0, 1e3)
    return [(r, t, M, f, 5, 0) for r, t, M, f in product(rho, EDGE_TH + mid, ms, EDGE_F)]
