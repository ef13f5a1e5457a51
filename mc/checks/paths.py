"""C05: the two paths of every multi-revolution problem.  C06: what is feasible."""

from itertools import product
from math import pi, radians, sqrt

from mc import chart, families, harness, lattice, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH


def other_root(p):
    """x on the other side of the minimum with the same time of flight."""
    lo, hi = (-1.0 + 1e-13, p.xm) if p.x > p.xm else (p.xm, 1.0 - 1e-13)
    falling = p.x > p.xm
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if (chart.tof_x(p.ll, mid, p.M) > p.T) == falling:
            lo = mid
        else:
            hi = mid
        if hi - lo < 1e-16:
            break
    return 0.5 * (lo + hi)


def two_paths(rep):
    runner.warm(runner.MULTI)
    table = runner.solvers(runner.MULTI)
    rho = (0.01, 0.3, 0.723, 1.0, 1.9, 20.0)
    th = (3, 25, 60, 100, 150, 179, 181, 220, 270, 330, 357)
    ms = (1, 2, 4, 7)
    fs = (0.02, 0.1, 0.3, 0.5, 0.7, 0.85, 0.95)
    fr = ((0, 0), (2, 1), (8, 4))
    if THOROUGH:
        rho, th, ms = families.RHO, families.TH, (1, 2, 3, 4, 5, 7, 10, 20)
        fs = tuple(k / 20 for k in range(1, 20)) + (0.02, 0.98)
        fr = ((0, 0), (2, 1), (8, 4), (3, 2), (5, 3), (4, 5), (11, 6))
    states = [
        (r, t, M, s * f, a, u)
        for r, t, M, f, s, (a, u) in product(rho, th, ms, fs, (1, -1), fr)
    ]

    def one(item):
        n, s = item
        p = lattice.build(s)
        q = lattice.build(s, other_root(p))
        q.tof, q.low = p.tof, not p.low
        a = lattice.call(table[n], p)
        b = lattice.call(table[n], q)
        sep = abs(p.v1 - q.v1).max() / sqrt(p.v1 @ p.v1)
        return a, b, q.x, sep

    items = [(n, s) for n in runner.MULTI for s in states]
    res = runner.sweep(items, one, limit=40.0)
    for (n, s), o in res:
        if o is None or runner.dead(o):
            solve.judge(rep, n, s, o, True)
            rep.counts["not run" if o is None else "no return"] += 1
            continue
        a, b, xq, sep = o
        need = spec.required(n, s)
        lim = 3 * spec.tol(n, s)
        ca = solve.judge(rep, n, s, a, need, limit=lim)
        cb = solve.judge(rep, n, s, b, need, limit=lim, mode=f"|other x={xq:.12g}")
        rep.counts[f"pair {ca}/{cb}"] += 1
        rep.counts["correct"] += (ca == "correct") + (cb == "correct")
        rep.counts["refused"] += (ca == "refused") + (cb == "refused")
        if ca == cb == "correct" and sep > 20 * lim:
            d = abs(a[2] - b[2]).max()
            rep.counts["pairs told apart"] += 1
            if not d > 0:
                rep.violation(lattice.key(n, s), "both paths gave one answer", {"state": s})
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "other x": o[2] if o else None})
    return solve.finish(
        rep,
        2 * len(res),
        "every problem of the lattice is solved for both paths and both answers are "
        "compared with the two roots of the closed-form time equation",
        len(states),
    )


# How close to the minimum time each solver tells the sides apart, with the
# default tolerances and a margin of ten
REFUSED = {
    "gooding1990": 1e-8,
    "izzo2015": 1e-8,
    "delatorre2018": 1e-8,
    "mcelreath2025": 1e-6,
    "negrete2024": 1e-6,
    "der2011": 1e-5,
    "arora2013": 1e-5,
}
ANSWERED = {
    "gooding1990": 1e-8,
    "delatorre2018": 1e-8,
    "mcelreath2025": 1e-8,
    "arora2013": 1e-8,
    "izzo2015": 1e-5,
    "der2011": 1e-3,
    "negrete2024": float("inf"),
}


def feasibility(rep):
    runner.warm(runner.MULTI)
    table = runner.solvers(runner.MULTI)
    rho = (0.05, 0.4, 1.0, 1.524, 12.0)
    th = (10, 45, 100, 165, 195, 240, 300, 350)
    ms = (1, 2, 3, 5, 8)
    below = (0.05, 0.3, 0.7, 0.9, 0.98, 0.999, 1 - 1e-4, 1 - 1e-5, 1 - 1e-6, 1 - 1e-7, 1 - 1e-8)
    above = (1 + 1e-8, 1 + 1e-7, 1 + 1e-6, 1 + 1e-5, 1 + 1e-4, 1.001, 1.01, 1.1, 1.5, 3.0)
    fr = ((1, 0), (7, 1), (3, 3))
    if THOROUGH:
        rho, th = families.RHO, families.TH[::2]
        ms = (1, 2, 3, 4, 5, 6, 8, 11, 16, 25)
        below += (0.5, 0.8, 0.95, 0.99, 0.995)
        above += (1.005, 1.02, 1.05, 1.2, 2.0, 8.0)
        fr += ((5, 2), (10, 4), (0, 5), (4, 7))
    items = [
        (n, (r, t, M, 0.5, a, u), k, low)
        for n, r, t, M, (a, u), k, low in product(
            runner.MULTI, rho, th, ms, fr, below + above, (True, False)
        )
    ]

    def one(item):
        n, s, k, low = item
        p = lattice.build(s)
        p.tof, p.low = p.tof_min * k, low
        if k > 1:
            # the orbit that takes this long
            lo, hi = (p.xm, 1 - 1e-12) if low else (-1 + 1e-12, p.xm)
            want = k * chart.tof_x(p.ll, p.xm, p.M)
            for _ in range(100):
                mid = 0.5 * (lo + hi)
                if (chart.tof_x(p.ll, mid, p.M) > want) != low:
                    lo = mid
                else:
                    hi = mid
            q = lattice.build(s, 0.5 * (lo + hi))
            q.tof, q.low = p.tof, low
            p = q
        return lattice.call(table[n], p)

    res = runner.sweep(items, one, limit=30.0)
    for (n, s, k, low), o in res:
        extra = f"|T/Tmin={k:.9g}|low={low}"
        if k < 1:
            c = "refused, impossible"
            if o is None or runner.dead(o):
                c = solve.judge(rep, n, s, o, False, mode=extra)
            elif o[0] == "ok" and 1 - k < 0.9 * REFUSED[n]:
                c = "minimum not resolved"
            elif o[0] == "ok":
                c = "answered, impossible"
                rep.violation(
                    lattice.key(n, s, extra),
                    "returned velocities for a time of flight below the minimum",
                    {"solver": n, "state": s, "T/Tmin": k, "low": low},
                )
            elif o[0] == "other":
                c = "undocumented exception"
                rep.violation(lattice.key(n, s, extra), f"raised {o[1]}", {"state": s})
        else:
            need = k - 1 > 0.9 * ANSWERED[n]
            lim = max(1e-3, spec.tol(n, s)) if k > 1.0009 else 0.1
            if n in ("gooding1990", "izzo2015", "delatorre2018") or n == "mcelreath2025" and k > 1 + 5e-6:
                lim = 1e-4
            if o is not None and o[0] == "other":
                rep.violation(lattice.key(n, s, extra), f"raised {o[1]}", {"state": s, "T/Tmin": k, "low": low})
            c = solve.judge(rep, n, s, o, need, limit=lim, mode=extra)
        rep.counts[f"{'below' if k < 1 else 'above'}: {c}"] += 1
        rep.counts["correct"] += c == "correct"
        rep.counts["refused"] += c.startswith("refused")
    # for one time of flight: feasible exactly for M = 0 .. M_max
    items2 = [
        (n, (r, t, 0, f, a, u))
        for n, r, t, f, (a, u) in product(
            runner.MULTI, rho, th, (-0.97, -0.9, -0.8, -0.6), fr[:2]
        )
        if n != "negrete2024"
    ]

    def two(item):
        n, s = item
        p = lattice.build(s)
        got = []
        for M in range(0, 14):
            ok = True
            if M:
                xm = lattice.xmin_cached(s[0], radians(s[1]), M)
                ratio = p.T / chart.tof_x(p.ll, xm, M)
                if abs(ratio - 1) < 1e-3:
                    continue
                ok = ratio > 1
            p.M = M
            for low in (True, False):
                p.low = low
                r = lattice.call(table[n], p)
                got.append((M, low, ok, r[0] == "ok", r[1] if r[0] != "ok" else ""))
        return got

    res2 = runner.sweep(items2, two, limit=60.0)
    n2 = 0
    for (n, s), o in res2:
        if o is None or runner.dead(o):
            solve.judge(rep, n, s, o, True, mode="|all M")
            continue
        for M, low, ok, answered, msg in o:
            n2 += 1
            rep.counts["ladder"] += 1
            rep.counts["correct"] += answered and ok
            rep.counts["refused"] += not answered and not ok
            if ok != answered:
                rep.violation(
                    lattice.key(n, s, f"|asked M={M}|low={low}"),
                    f"{'refused a feasible' if ok else 'answered an infeasible'} number of revolutions {msg}",
                    {"solver": n, "state": s, "M": M, "low": low},
                )
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "T/Tmin": it[2], "low": it[3]})
    return solve.finish(
        rep,
        len(res) + n2,
        "every (triangle, M, path) crossed with times of flight below and above the "
        "minimum, and for every time of flight every M from 0 to 13; "
        "the side of the minimum is decided by the closed form",
        len({i[1:] for i in items}) + len({i[1] for i in items2}),
    )


def main(pid):
    rep = harness.Report(pid, "model_checking")
    rep.assumptions = [
        "minimum times come from bisection on the derivative of the closed-form time equation",
        "times within 0.1% of the minimum are only required not to be wrong",
    ]
    return two_paths(rep) if pid == "C05" else feasibility(rep)
