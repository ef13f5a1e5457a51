"""C04: sense of motion, judged by two-body propagation instead of the chart."""

from itertools import product
from math import pi, sqrt

import numpy as np

from mc import chart, harness, lattice, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH

LOOSE = {"gauss1809", "negrete2024"}


class Case:
    def __init__(self, a, b, k, prograde, mu, scale):
        self.r1, self.r2 = scale * np.array(a, float), scale * np.array(b, float)
        self.prograde, self.mu = prograde, mu
        n1, n2 = sqrt(self.r1 @ self.r1), sqrt(self.r2 @ self.r2)
        cr = np.cross(self.r1, self.r2)
        short = np.arctan2(sqrt(cr @ cr), self.r1 @ self.r2)
        up = cr[2] >= 0
        self.theta = short if up == prograde else 2 * pi - short
        self.polar = cr[2] == 0
        c = sqrt((self.r1 - self.r2) @ (self.r1 - self.r2))
        s = (n1 + n2 + c) / 2
        sgn = 1 if self.theta < pi else -1
        self.tp = sqrt(2 / mu) / 3 * (s**1.5 - sgn * (s - c) ** 1.5)
        self.tof = k * self.tp
        # direction of motion: along the cross product on the short way
        self.h = cr if self.theta < pi else -cr


def vecs():
    base = [v for v in product((-1, 0, 1), repeat=3) if any(v)]
    if THOROUGH:
        base += [v for v in product((-2, 1, 3), repeat=3)] + [(0, 0, 2), (0, -3, 0), (0.3, 0, -2)]
    else:
        base += [(2, -1, 3), (-0.5, 0.1, 0.2), (0, 3, -1)]
    return base


def main(pid):
    rep = harness.Report(pid, "model_checking")
    rep.assumptions = [
        "transfers in planes that contain the z axis go the short way when prograde (documented choice of the code)",
        "the propagator of mc/chart.py is right (selftest)",
    ]
    runner.warm(runner.ALL)
    table = runner.solvers()
    v = vecs()
    first = v if THOROUGH else v[::2]
    ks = (0.5, 0.8, 1.0, 1.3, 2.5, 6.0) if THOROUGH else (0.7, 1.3, 4.0)
    mus = ((1.0, 1.0), (398600.4418, 9000.0)) if THOROUGH else ((1.0, 1.0),)
    cases = [
        (a, b, k, pg, mu, sc)
        for a, b, k, pg, (mu, sc) in product(first, v, ks, (True, False), mus)
        if np.any(np.cross(a, b))
    ]
    items = [(n, c) for n in runner.ALL for c in cases]

    def one(item):
        n, c = item
        p = Case(*c)
        kw = spec.default_kw(n, (1, 1, 0, 1, 0, 0))
        try:
            v1, v2 = table[n](p.mu, p.r1, p.r2, p.tof, is_prograde=p.prograde, **kw)[:2]
        except lattice.REJECT as exc:
            return ("reject", f"{type(exc).__name__}: {exc}"[:90])
        except Exception as exc:  # noqa: BLE001
            return ("other", f"{type(exc).__name__}: {exc}"[:90])
        if not (np.isfinite(v1).all() and np.isfinite(v2).all()):
            return ("ok", float("nan"), 0.0, 0.0, 0.0)
        r, w, sweep = chart.propagate(p.mu, p.r1, v1, p.tof)
        miss = np.abs(r - p.r2).max() / sqrt(p.r2 @ p.r2)
        dv = np.abs(w - v2).max() / sqrt(v2 @ v2)
        h = np.cross(p.r1, v1)
        return ("ok", miss, dv, float(h @ p.h) / sqrt((h @ h) * (p.h @ p.h)), sweep / (2 * pi), h[2] / sqrt(h @ h))

    res = runner.sweep(items, one, limit=20.0)
    for (n, c), o in res:
        k = f"{n}|r1={c[0]}|r2={c[1]}|T/Tp={c[2]}|prograde={c[3]}|mu={c[4]:g}"
        rp = {"solver": n, "case": c}
        if o is None:
            rep.exhaustive = False
            rep.counts["not run"] += 1
        elif runner.dead(o):
            rep.violation(k, "the call never returned", rp)
        elif o[0] != "ok":
            rep.counts["refused"] += 1
            if n not in LOOSE or o[0] == "other":
                rep.violation(k, f"refused a solvable problem: {o[1]}", rp)
        else:
            _, miss, dv, along, revs, hz = o
            t = 30 * spec.tol(n, (1, 90, 0, 0.5, 0, 0))
            if not miss < t or not dv < t:
                rep.violation(k, f"propagating v1 misses r2 by {miss:.2g} and v2 by {dv:.2g}", rp)
            elif not along > 0.999:
                rep.violation(k, "moves in the wrong sense", rp)
            elif abs(hz) > 1e-9 and (hz > 0) != c[3]:
                rep.violation(k, f"h_z has the wrong sign ({hz:.2g})", rp)
            elif not revs < 1.0:
                rep.violation(k, f"took {revs:.2f} revolutions instead of none", rp)
            else:
                rep.counts["correct"] += 1
                rep.counts[f"{n}: correct"] += 1
    # planes that contain the z axis up to round-off: which way is prograde is then
    # up to round-off as well, but the two senses have to be opposite
    az = [k * 0.157 for k in range(1, 41 if THOROUGH else 21)]
    el = ((0.2, 1.1), (0.3, 2.0), (-0.5, 0.9), (2.0, 0.4), (1.0, 2.9))
    items2 = [(n, a, e, t) for n in runner.ALL if n not in LOOSE for a in az for e in el for t in (0.9, 3.0)]

    def two(item):
        n, a, (e1, e2), t = item
        u, z = np.array([np.cos(a), np.sin(a), 0.0]), np.array([0.0, 0.0, 1.0])
        r1 = np.cos(e1) * u + np.sin(e1) * z
        r2 = 1.3 * (np.cos(e2) * u + np.sin(e2) * z)
        got = []
        for pg in (True, False):
            try:
                v1, v2 = table[n](1.0, r1.copy(), r2.copy(), t, is_prograde=pg, **spec.default_kw(n, (1, 1, 0, 1, 0, 0)))
            except Exception as exc:  # noqa: BLE001
                got.append((f"{type(exc).__name__}: {exc}"[:90], 0.0))
                continue
            r, w, _ = chart.propagate(1.0, r1, v1, t)
            got.append((max(np.abs(r - r2).max(), np.abs(w - v2).max()), float(np.cross(r1, v1) @ np.cross(r1, r2))))
        return got

    res2 = runner.sweep(items2, two, limit=20.0)
    for (n, a, e, t), o in res2:
        k = f"{n}|vertical plane|azimuth={a:g}|elevations={e}|tof={t}"
        rp = {"solver": n, "azimuth": a, "elevations": e, "tof": t}
        if o is None:
            rep.exhaustive = False
            continue
        if runner.dead(o):
            rep.violation(k, "the call never returned", rp)
            continue
        bad = [x[0] for x in o if isinstance(x[0], str)]
        if bad:
            # the long way in so short a time is beyond the domain of some
            rep.counts["vertical: refused"] += 1
            if t > 1:
                rep.violation(k, f"refused a solvable problem: {bad[0]}", rp)
            continue
        miss = max(x[0] for x in o)
        if not miss < 60 * spec.tol(n, (1, 90, 0, 0.5, 0, 0)):
            rep.violation(k, f"propagating v1 misses the end point by {miss:.2g}", rp)
        elif o[0][1] * o[1][1] >= 0:
            rep.violation(k, "prograde and retrograde answers move in the same sense", rp)
        else:
            rep.counts["correct"] += 2
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "case": it[1], "outcome": [str(x) for x in o] if o else None})
    return solve.finish(
        rep,
        len(res) + 2 * len(res2),
        "every ordered pair of non-collinear position vectors with components in {-1, 0, 1} "
        "(and a few more), both senses of motion, times of flight around the parabolic one; "
        "the answer is propagated through a bracketed universal Kepler equation",
        len(cases) + 2 * len(az) * len(el) * 2,
    )
