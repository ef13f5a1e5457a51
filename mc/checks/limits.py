"""C14: every call comes back.  C15: the interpreted package.  C26: tolerances."""

import json
import os
import subprocess
import sys
import tempfile
from itertools import product
from math import inf, nan, sqrt

import numpy as np

from mc import families, harness, lattice, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH


# ------------------------------------------------------------------ C14
def termination(rep):
    runner.warm(runner.ALL)
    table = runner.solvers()
    tols = [0.0, 1e-300, 1e-16, 1e-5, 1.0, 1e6, inf, nan, -1.0]
    pairs = [(a, b) for a in tols for b in tols] if THOROUGH else [(a, a) for a in tols] + [(0.0, 1e-7), (1e-5, 0.0), (nan, 1e-7), (1e-5, nan), (inf, 0.0)]
    iters = (0, -3, 1, 35, 1000) if not THOROUGH else (0, -3, 1, 2, 35, 200, 5000)
    tofs = (1e-300, 1e-12, 1e-3, 0.3, 1.0, 3.0, 20.0, 1e4, 1e12, 1e300)
    more = [1e-8 * 1.6**k for k in range(80)] if THOROUGH else [1e-6 * 2.1**k for k in range(36)]
    geo = [((1, 0, 0), (0, 1, 0)), ((1, 0.2, 0), (-0.9, 1.5, 0.4)), ((1, 0, 0), (-1, 1e-7, 0)), ((1, 0, 0), (1, 1e-9, 1e-9)), ((1, 0, 0), (-40, 3, 1)), ((1e-9, 0, 0), (0, 0, 1e9)), ((1e150, 0, 0), (0, 1e150, 3.0)), ((1, 0, 0), (0.3, -1e-3, 0))]
    geo += [((1, 0, 0), (1, 1e-6, 0)), ((1, 0, 0), (0.9, 0, 0.5)), ((0, 1, 0), (0, -0.8, -0.5))]
    if THOROUGH:
        geo += [((1, 0, 0), (-1, -1e-12, 0)), ((1, 1, 1), (1, 1, 1.0000001)), ((1e-160, 0, 0), (0, 1e-160, 0)), ((3, 0, 4), (-3, 0, 4)), ((1, 0, 0), (-0.5, -0.8, 0)), ((1, 2, 3), (3, 2, 1))]
    zero = [(g, t, 0, pg) for g in range(len(geo)) for t in (*tofs, *more) for pg in (True, False)]
    mult = [(g, t, M, pg) for g in range(len(geo)) for t in (*tofs[4:], *more[14::3]) for M in (1, 7, 200) for pg in (True, False)]
    items = []
    for n in runner.ALL:
        for c in zero + (mult if n in runner.MULTI else []):
            # every extreme problem with the defaults
            items.append((n, *c, None, 35))
        few = [c for c in zero if c[0] in (0, 1, 2) and c[1] in (1e-3, 1.0, 20.0) and c[3]] + [c for c in mult if c[0] in (0, 1) and c[1] == 20.0 and c[2] < 200 and c[3]]
        for c in few if n in runner.MULTI else [c for c in few if not c[2]]:
            for tl, k in product(pairs, iters):
                items.append((n, *c, tl, k))

    def one(item):
        n, g, t, M, pg, tl, k = item
        r1, r2 = (np.array(v, float) for v in geo[g])
        kw = {} if tl is None else {"atol": tl[0], "rtol": tl[1]}
        try:
            out = table[n](1.0, r1, r2, t, M=M, is_prograde=pg, maxiter=k, **kw)
        except lattice.REJECT as exc:
            return ("refused", type(exc).__name__)
        except ArithmeticError as exc:
            # as good as an error of the solver where the doubles run out
            return ("arithmetic", f"{type(exc).__name__}: {exc}"[:100])
        except Exception as exc:  # noqa: BLE001
            return ("other", f"{type(exc).__name__}: {exc}"[:100])
        fin = bool(np.isfinite(out[0]).all() and np.isfinite(out[1]).all())
        return ("answered" if fin else "not finite", "")

    def ordinary(g, t, tl):
        return g in (0, 1, 4) and 1e-3 <= t <= 1e4 and not (tl and nan in tl)

    res = runner.sweep(items, one, limit=40.0)
    for (n, g, t, M, pg, tl, k), o in res:
        key = f"{n}|r1={geo[g][0]}|r2={geo[g][1]}|tof={t:g}|M={M}|prograde={pg}|tolerances={tl}|maxiter={k}"
        rp = {"solver": n, "r1": geo[g][0], "r2": geo[g][1], "tof": t, "M": M, "prograde": pg, "tolerances": str(tl), "maxiter": k}
        if o is None:
            rep.exhaustive = False
        elif runner.dead(o):
            rep.violation(key, "the call never returned" if "HANG" in o else "the call killed the interpreter", rp)
        elif o[0] == "other" or o[0] == "arithmetic" and ordinary(g, t, tl):
            rep.violation(key, f"raised {o[1]}", rp)
        elif o[0] == "not finite" and ordinary(g, t, tl):
            rep.violation(key, "returned numbers that are not finite", rp)
        else:
            rep.counts["correct"] += o[0] in ("answered", "not finite")
            rep.counts["refused"] += o[0] in ("refused", "arithmetic")
            rep.counts[f"{o[0]} {o[1]}".strip()] += 1
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"call": [str(x) for x in it], "outcome": o})
    return solve.finish(
        rep, len(res),
        "every extreme problem with the default tolerances, and every combination of "
        "absurd tolerances and budgets for ordinary ones, under a watchdog: an answer, ValueError or RuntimeError",
        len(items),
    )


# ------------------------------------------------------------------ C15
def both_items():
    rho, th = (0.2, 1.0, 1.4), (7, 35, 80, 120, 165, 195, 250, 310)
    x0, fm, ms, fr = (-0.9, -0.5, -0.1, 0.0, 0.3, 0.8, 1.0, 1.15), (-0.8, -0.3, 0.2, 0.6), (1, 2), (1, 2)
    if THOROUGH:
        rho, th = (0.02, *rho, 0.7, 6.0, 50.0), (3, *th, 20, 55, 100, 140, 178, 182, 220, 280, 340)
        x0, fm, ms = (*x0, -0.97, 0.1, 0.97, 1.5), (*fm, -0.97, -0.05, 0.05, 0.95), (1, 2, 3, 8)
    zero = [(r, t, 0, f, k, 0) for r, t, f, k in product(rho, th, x0, fr)]
    zero += [(r, t, 0, f, k, 0) for r, t, f, k in product(rho[:2], (40, 150, 280), (0.2, 0.7), (0, 3, 4))]
    edge = [(r, t, 0, f, 1, 0) for r, t, f in product((0.3, 1.0), (0.5, 179.8, 180.2, 359), (-0.995, -1e-5, 1 - 1e-9, 1 + 1e-9, 4.0))]
    mult = [(r, t, M, f, k, 0) for r, t, M, f, k in product(rho, th, ms, fm, fr)]
    edgem = [(r, t, 1, f, 1, 0) for r, t, f in product((0.3, 1.0), (0.5, 90, 179.8, 359), (-0.999, -1e-4, 1e-4, 0.999))]
    return [(n, s) for n in runner.ALL for s in zero + edge + (mult + edgem if n in runner.MULTI else [])]


def both_run():
    runner.warm(runner.ALL)
    table = runner.solvers()

    def one(item):
        n, s = item
        o = lattice.call(table[n], lattice.build(s), full_output=True, **spec.default_kw(n, s))
        if o[0] == "ok":
            return ("ok", o[1], [float(x) for x in (*o[2], *o[3])], float(o[4][0]))
        return (o[0], o[1])

    return runner.sweep(both_items(), one, limit=60.0)


def interpreted(rep):
    with tempfile.TemporaryDirectory(prefix="lh-mc-") as tmp:
        env = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(tmp, "cache"))
        env.pop("NUMBA_DISABLE_JIT", None)
        env["PYTHONPATH"] = os.pathsep.join([harness.SRC, harness.VERIF])
        out = os.path.join(tmp, "out.json")
        subprocess.run([sys.executable, "-m", "mc.checks.limits", out], env=env, cwd=harness.VERIF, check=True, stdout=subprocess.DEVNULL)
        with open(out, encoding="utf-8") as fh:
            comp = json.load(fh)
    inter = both_run()
    for ((n, s), a), b in zip(inter, comp):
        k = lattice.key(n, s)
        rp = {"solver": n, "state": s}
        if a is None or b is None:
            rep.exhaustive = False
            continue
        need = spec.required(n, s)
        lim = spec.tol(n, s) if need else spec.edge_tol(n, s)
        for how, o in (("interpreted", a), ("compiled", b)):
            if runner.dead(o):
                rep.violation(f"{k}|{how}", "the call never returned", rp)
            elif o[0] == "other":
                rep.violation(f"{k}|{how}", f"raised {o[1]}", rp)
            elif o[0] == "reject":
                rep.counts["refused"] += 1
                if need:
                    rep.violation(f"{k}|{how}", f"refused a solvable problem: {o[1]}", rp)
            elif not o[1] <= lim:
                rep.violation(f"{k}|{how}", f"wrong by {o[1]:.2g} (allowed {lim:g})", rp)
            else:
                rep.counts["correct"] += 1
        if runner.dead(a) or runner.dead(b) or a[0] != "ok" or b[0] != "ok":
            continue
        v, w = np.array(a[2]), np.array(b[2])
        d = np.abs(v - w).max() / np.abs(w).max()
        if not d <= 2 * lim:
            rep.violation(k, f"interpreted and compiled answers differ by {d:.2g}", rp)
        rep.counts["same number of iterations"] += a[3] == b[3]
    for (it, a), b in list(zip(inter, comp))[:: max(1, len(comp) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "interpreted": a and a[:2], "compiled": b and b[:2]})
    return solve.finish(
        rep, 2 * len(comp),
        "every point of a lattice of orbit arcs, edges included, solved by the package "
        "compiled and interpreted (NUMBA_DISABLE_JIT=1); both are compared with the closed form and with each other",
        len(comp),
    )


def main(pid):
    rep = harness.Report(pid, "model_checking")
    return {"C14": termination, "C15": interpreted}[pid](rep)


if __name__ == "__main__":
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    with open(sys.argv[1], "w", encoding="utf-8") as fh:
        json.dump([o for _, o in both_run()], fh)
