"""C10: every iteration budget.  C26: every tolerance setting."""

from itertools import product
from math import sqrt

import numpy as np

from mc import families, harness, lattice, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH


def budgets(rep):
    runner.warm(runner.ALL)
    table = runner.solvers()
    ns = list(range(1, 81)) if THOROUGH else [*range(1, 21), 25, 30, 35, 40, 45]
    ns += [64, 100, 150, 250, 500, 1000] if THOROUGH else [64, 250]
    rho, th = (0.1, 1.0, 1.7), (5, 30, 80, 140, 190, 230, 300, 350)
    x0 = (-0.95, -0.6, -0.2, 0.0, 0.4, 0.9, 1.0, 1.05, 1.5)
    fm = (-0.9, -0.5, -0.1, 0.1, 0.5, 0.9)
    ms = (1, 3)
    if THOROUGH:
        rho, th = (0.02, *rho, 0.5, 0.9, 10.0, 1.2, 3.0, 50.0), (3, *th, 15, 55, 110, 160, 178, 182, 210, 265, 330, 357)
        x0, ms = (-0.98, *x0, -0.75, 0.2, 0.75, 0.99, 1.2, 2.0), (1, 2, 3, 6, 12)
    zero = [(r, t, 0, f, 1, 0) for r, t, f in product(rho, th, x0)]
    mult = [(r, t, M, f, 2, 0) for r, t, M, f in product(rho, th, ms, fm)]
    items = [(n, s) for n in runner.ALL for s in zero + (mult if n in runner.MULTI else [])]

    def one(item):
        n, s = item
        p = lattice.build(s)
        kw = spec.default_kw(n, s)
        got, prev, since = [], None, 0
        for k in ns:
            kw["maxiter"] = k
            o = lattice.call(table[n], p, full_output=True, **kw)
            if o[0] == "ok":
                it = o[4][0] if len(o[4]) else None
                got.append((k, "ok", o[1], np.concatenate([o[2], o[3]]), it))
            else:
                got.append((k, o[0], o[1], None, None))
        # what matters: the classes, the first success, and whatever changes afterwards
        first = next((g for g in got if g[1] == "ok"), None)
        ref = got[-1]
        bad = []
        scale = sqrt(p.v1 @ p.v1)
        lim = 3 * spec.tol(n, s) if spec.required(n, s) else spec.edge_tol(n, s)
        for k, c, e, v, it in got:
            if c == "ok":
                if it is not None and not 0 <= it <= 2 * max(4, k):
                    # one solver counts two searches, one needs at least 4 points
                    bad.append((k, f"reports {it} iterations out of {k}"))
                if not e <= lim:
                    bad.append((k, f"returned velocities wrong by {e:.3g} (allowed {lim:g})"))
            elif first and k > 2 * first[0] + 5 and n != "negrete2024":
                bad.append((k, f"refused although {first[0]} iterations were enough: {e}"))
        if first and ref[1] == "ok":
            d = max(np.abs(g[3] - ref[3]).max() / scale for g in got if g[1] == "ok")
            if d > 2 * lim:
                bad.append((0, f"answers differ by {d:.3g} between budgets"))
        return len(got), sum(g[1] == "ok" for g in got), first[0] if first else None, bad[:3]

    res = runner.sweep(items, one, limit=60.0)
    calls = 0
    firsts = set()
    for (n, s), o in res:
        k = lattice.key(n, s)
        if o is None:
            rep.exhaustive = False
            rep.counts["not run"] += 1
            continue
        if runner.dead(o):
            rep.violation(k, "a call never returned", {"solver": n, "state": s})
            continue
        total, ok, first, bad = o
        calls += total
        rep.counts["correct"] += ok
        rep.counts["refused"] += total - ok
        firsts.add((n, first))
        for it, text in bad:
            rep.violation(f"{k}|maxiter={it}", text, {"solver": n, "state": s, "maxiter": it})
    rep.extra["distinct smallest sufficient budgets"] = len(firsts)
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "first sufficient": o[2] if o and not runner.dead(o) else None})
    return solve.finish(
        rep, calls,
        "every budget from 1 to the bound (and some large ones) for every problem: the "
        "outcome is an error or the right answer, no error once a budget is "
        "twice (and five more than) a sufficient one, and no absurd iteration counts",
        len(items),
    )


# where the smallest tolerances may be below what doubles can resolve
FLOOR = ("negrete2024", "arora2013")
# largest accepted error with the smallest tolerances: at least a hundred times that of the correct code
SMALLEST = {
    "battin1984": 1e-11, "gooding1990": 1e-11, "izzo2015": 1e-11, "mcelreath2025": 1e-11, "negrete2024": 1e-11,
    "delatorre2018": 1e-9, "vallado2013": 1e-8, "der2011": 1e-8, "arora2013": 1e-9, "pan2016": 1e-8,
    "thorne2004": 1e-8, "avanzini2008": 1e-5, "jiang2016": 1e-2, "gauss1809": 1e-4,
}  # fmt: skip


def smallest(n, s):
    if n == "gauss1809" and s[1] <= 10 and s[3] >= 0:
        return 1e-9
    if n == "pan2016" and s[2] == 0 and abs(s[3] - 1) < 0.05:
        return 1e-5
    return SMALLEST[n]


def tolerances(rep):
    runner.warm(runner.ALL)
    table = runner.solvers()
    ladder = [1e-5, 1e-7, 1e-9, 1e-11, 1e-12]
    pairs = [(a, a) for a in ladder] + [(1e-5, 1e-12), (1e-12, 1e-7), (1e-9, 1e-7)]
    if THOROUGH:
        ladder = [10.0**-k for k in range(5, 13)]
        pairs = list(product(ladder, repeat=2))
    rho, th = (0.15, 1.0, 1.7), (10, 40, 85, 140, 200, 250, 320)
    x0 = (-0.9, -0.6, -0.3, 0.0, 0.2, 0.5, 0.78, 0.9, 1.0, 1.1, 1.17, 1.5)
    fm, ms = (-0.9, -0.5, -0.1, 0.1, 0.5, 0.9), (1, 3)
    if THOROUGH:
        rho, th = (0.05, *rho, 0.5, 8.0), (5, *th, 20, 60, 110, 165, 185, 225, 290, 350)
        x0, ms = (*x0, -0.97, -0.1, 0.7, 0.98), (1, 2, 5, 10)
    zero = [(r, t, 0, f, k, 0) for r, t, f, k in product(rho, th, x0, (1, 5))]
    mult = [(r, t, M, f, 2, 0) for r, t, M, f in product(rho, th, ms, fm)]
    items = [(n, s) for n in runner.ALL for s in zero + (mult if n in runner.MULTI else []) if spec.required(n, s)]
    if not THOROUGH:
        # the slow one on every fourth problem
        items = [it for i, it in enumerate(items) if it[0] != "pan2016" or i % 4 == 0]

    def one(item):
        n, s = item
        p = lattice.build(s)
        out = []
        for a, r in pairs:
            o = lattice.call(table[n], p, atol=a, rtol=r, maxiter=1000)
            out.append((o[0], o[1]))
        return out

    res = runner.sweep(items, one, limit=60.0)
    calls = 0
    worst = {}
    for (n, s), o in res:
        k = lattice.key(n, s)
        if o is None:
            rep.exhaustive = False
            continue
        if runner.dead(o):
            rep.violation(k, "a call never returned", {"solver": n, "state": s})
            continue
        for (a, r), (c, e) in zip(pairs, o):
            calls += 1
            kk, rp = f"{k}|atol={a:g}|rtol={r:g}", {"solver": n, "state": s, "atol": a, "rtol": r}
            tight = max(a, r) <= 1e-12
            lim = smallest(n, s) if tight else spec.tol(n, s)
            if n == "delatorre2018":
                # its own defaults are far smaller than the first rungs
                lim = max(lim, 1e3 * max(a, r))
            # looser than the default: as much worse
            lim = min(0.5, lim * max(1.0, r / 1e-7))
            if c != "ok":
                rep.counts["refused"] += 1
                if c == "other" or min(a, r) >= 1e-9 or n not in FLOOR:
                    rep.violation(kk, f"refused a solvable problem: {e}", rp)
            elif not e <= lim:
                rep.violation(kk, f"velocities wrong by {e:.3g} (allowed {lim:g})", rp)
            else:
                rep.counts["correct"] += 1
                w = worst.setdefault(n, {})
                w[f"{a:g},{r:g}"] = max(w.get(f"{a:g},{r:g}", 0.0), float(e))
    rep.extra["largest error by (atol, rtol)"] = {n: {k: float(f"{v:.1e}") for k, v in w.items()} for n, w in worst.items()}
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "outcomes": str(o)[:300]})
    return solve.finish(
        rep, calls,
        "every pair of tolerances of a ladder from the defaults down to 1e-12 for every "
        "problem: always an answer, as good as with the defaults, and far better with the smallest ones",
        len(items),
    )


def main(pid):
    rep = harness.Report(pid, "model_checking")
    return {"C10": budgets, "C26": tolerances}[pid](rep)
