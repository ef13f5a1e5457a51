"""The two references of the checks against each other, before anything is judged.

The closed-form chart (mc/chart.py, lattice) and the two-body propagator share no
formula: propagating the chart's v1 for the chart's time has to end at r2 with v2.
"""

import sys
from itertools import product
from math import pi, sqrt

import numpy as np

from mc import chart, lattice
from mc.checks import paths


def main():
    worst, n = 0.0, 0
    rho = (0.05, 0.5, 1.0, 1.7, 20.0)
    th = (5, 45, 130, 175, 200, 290, 350)
    for r, t, (M, fs), fr in product(
        rho, th, ((0, (-0.9, -0.3, 0.4, 0.95, 1.0, 1.02, 1.5)), (1, (-0.9, -0.2, 0.2, 0.9)), (5, (-0.5, 0.5))), range(len(lattice.FRAMES))
    ):
        for f in fs:
            p = lattice.build((r, t, M, f, fr, fr % len(lattice.UNITS)))
            r2, v2, sweep = chart.propagate(p.mu, p.r1, p.v1, p.tof)
            e = max(np.abs(r2 - p.r2).max() / sqrt(p.r2 @ p.r2), np.abs(v2 - p.v2).max() / sqrt(p.v2 @ p.v2))
            n += 1
            worst = max(worst, e)
            assert e < 2e-7, (p.state, e)
            h = np.cross(p.r1, p.v1)
            assert h @ p.normal > 0.999999 * sqrt(h @ h), p.state
            if f < 1:
                assert int(sweep / (2 * pi)) == M, (p.state, sweep / (2 * pi))
            if M:
                # time of flight grows away from the minimum on both sides
                assert p.tof > p.tof_min
                dn = chart.tof_x(p.ll, p.x + (1e-4 if p.low else -1e-4), M)
                assert dn > p.T, p.state
                # the low path leaves with the lower flight-path angle
                q = lattice.build(p.state, paths.other_root(p))
                assert abs(chart.tof_x(q.ll, q.x, M) / p.T - 1) < 1e-9
                lo, hi = (p, q) if p.low else (q, p)
                assert lo.r1 @ lo.v1 / sqrt(lo.v1 @ lo.v1) < hi.r1 @ hi.v1 / sqrt(hi.v1 @ hi.v1)
    print(f"selftest: {n} arcs, chart against propagation, worst relative difference {worst:.2e}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
