"""C12: calls do not influence each other.  C17: transfers can be subdivided."""

import os
import random
import sys
import warnings
from itertools import product
from math import acos, pi, radians, sqrt
from multiprocessing import get_context

import numpy as np

from mc import chart, harness, lattice, pool, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH

A = ((1.0, 0.2, -0.1), (-0.7, 1.1, 0.4))


def parabolic(r1, r2):
    """The time of flight of the parabola between them (less than half a turn, mu = 1)."""
    a, b, c = (sqrt(sum(x * x for x in v)) for v in (r1, r2, [y - x for x, y in zip(r1, r2)]))
    s = (a + b + c) / 2
    return sqrt(2) / 3 * (s**1.5 - (s - c) ** 1.5)


def alphabet():
    """Operations: (name, mu, r1, r2, tof, keyword arguments)."""
    r1, r2 = A
    near = (r2[0], r2[1] * (1 + 1e-7), r2[2])
    return [
        ("base", 1.0, r1, r2, 2.0, {}),
        ("nearly the same time", 1.0, r1, r2, 2.0 * (1 + 1e-7), {}),
        ("other sense", 1.0, r1, r2, 2.0, {"is_prograde": False}),
        ("other mu", 1.2, r1, r2, 2.0, {}),
        ("nearly the same r2", 1.0, r1, near, 2.0, {}),
        ("swapped", 1.0, r2, r1, 2.0, {}),
        ("one revolution, low", 1.0, r1, r2, 16.0, {"M": 1, "is_low_path": True}),
        ("one revolution, high", 1.0, r1, r2, 16.0, {"M": 1, "is_low_path": False}),
        ("one revolution, other mu", 9.0, r1, r2, 16.0 / 3, {"M": 1, "is_low_path": True}),
        ("two revolutions, other time", 1.0, r1, r2, 27.0, {"M": 2, "is_low_path": True}),
        ("too many revolutions", 1.0, r1, r2, 2.0, {"M": 3}),
        ("hyperbola", 1.0, r1, r2, 0.6, {}),
        ("tiny budget", 1.0, r1, r2, 16.0, {"maxiter": 1}),
        ("invalid", -1.0, r1, r2, 2.0, {}),
        ("collinear", 1.0, r1, (2.0, 0.4, -0.2), 2.0, {}),
        ("full output", 1.0, r1, r2, 2.0, {"full_output": True}),
        ("tight", 1.0, r1, r2, 2.0, {"atol": 1e-12, "rtol": 1e-12, "maxiter": 1000}),
        ("parabola", 1.0, r1, r2, parabolic(r1, r2), {}),
        ("nearly a parabola", 1.0, r1, r2, parabolic(r1, r2) * (1 + 1e-4), {}),
        ("equal distances", 1.0, (1.0, 0.2, -0.1), (-0.2, 1.0, 0.1), 2.0, {}),
        # the same angle, exactly
        ("r2 twice as far", 1.0, r1, tuple(2 * x for x in r2), 2.0, {}),
        ("both at half the distance", 1.0, tuple(x / 2 for x in r1), tuple(x / 2 for x in r2), 2.0, {}),
        # the same angle and the same distances
        ("half a turn about z", 1.0, (-r1[0], -r1[1], r1[2]), (-r2[0], -r2[1], r2[2]), 2.0, {}),
    ]


class Caller:
    """Makes calls through two buffers of its own that it refills every time."""

    def __init__(self):
        self.table = runner.solvers()
        self.ops = alphabet()
        self.b1, self.b2 = np.zeros(3), np.zeros(3)
        self.held = []

    def __call__(self, n, i):
        _, mu, r1, r2, tof, kw = self.ops[i]
        kw = dict(kw)
        if n == "vallado2013":
            kw.setdefault("maxiter", 500)
        self.b1[:], self.b2[:] = r1, r2
        try:
            out = self.table[n](mu, self.b1, self.b2, tof, **kw)
        except Exception as exc:  # noqa: BLE001
            res, vs = (type(exc).__name__, str(exc)), ()
        else:
            vs = out[:2]
            res = ("ok", out[0].tobytes(), out[1].tobytes(), *out[2:3])
        problem = ""
        if self.b1.tolist() != list(r1) or self.b2.tolist() != list(r2):
            problem = "changed its arguments"
        for v in vs:
            if any(np.shares_memory(v, w) for w in (self.b1, self.b2, *self.held)) or (len(vs) == 2 and vs[0] is vs[1]):
                problem = "returned an array that is somebody else's as well"
        # what belongs to the caller may be overwritten by the caller
        for w in self.held:
            w[:] = -7.5e77
        self.held = list(vs)
        return res, problem


def world():
    return (
        tuple(sorted(np.geterr().items())), np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate(),
        os.getcwd(), tuple(sorted(os.environ.items())), len(warnings.filters), sys.getrecursionlimit(),
        tuple(sorted(np.get_printoptions().items(), key=lambda x: x[0])).__repr__(), tuple(sys.path),
    )  # fmt: skip


def _fresh(conn, n, i):
    try:
        conn.send(Caller()(n, i))
    except BaseException as exc:  # noqa: BLE001
        conn.send((("died", repr(exc)), ""))
    os._exit(0)


def references(jobs):
    """Outcome of each (solver, operation) as the first call of a process."""
    ctx = get_context("fork")
    todo, live, out = list(reversed(jobs)), {}, {}
    while todo or live:
        while todo and len(live) < (os.cpu_count() or 4):
            j = todo.pop()
            a, b = ctx.Pipe()
            p = ctx.Process(target=_fresh, args=(b, *j))
            p.start()
            b.close()
            live[a] = (p, j)
        import multiprocessing.connection as mpc

        for a in mpc.wait(list(live), timeout=60.0) or list(live):
            p, j = live.pop(a)
            try:
                out[j] = a.recv() if a.poll(0) else (("no answer",), "")
            except EOFError:
                out[j] = (("died",), "")
            p.kill()
            p.join()
            a.close()
    return out


def purity(rep):
    rep.assumptions = ["one thread (C13 covers several)"]
    runner.warm(runner.ALL)
    ops = alphabet()
    k = len(ops)
    # one of its calls costs as much as a thousand of the others
    mine = {n: range(k) if THOROUGH or n != "pan2016" else [i for i, o in enumerate(ops) if o[0] in ("base", "other sense", "hyperbola", "invalid", "equal distances", "r2 twice as far", "both at half the distance", "half a turn about z")] for n in runner.ALL}
    jobs = [(n, i) for n in runner.ALL for i in mine[n]]
    ref = references(jobs)
    depth = 4 if THOROUGH else 3
    # one item: everything that starts with one call
    items = [("own", n, i) for n, i in jobs] + [("cross", n, i) for n, i in jobs]
    state = {}

    def one(item):
        kind, n, i = item
        c = state.setdefault("caller", None) or Caller()
        state["caller"] = c
        if kind == "own":
            hist = [[(n, i), *((n, j) for j in w)] for d in range(depth - (n == "pan2016" and THOROUGH)) for w in product(mine[n], repeat=d)]
        else:
            hist = [[(n, i), (m, j)] for m in runner.ALL if m != n for j in mine[m]]
        bad, calls = [], 0
        before = world()
        for h in hist:
            for step, call in enumerate(h):
                res, problem = c(*call)
                calls += 1
                if problem:
                    bad.append((h[: step + 1], problem))
                elif res != ref[call][0]:
                    bad.append((h[: step + 1], f"{_say(res)} instead of {_say(ref[call][0])} as in a fresh process"))
            if len(bad) > 5:
                break
        if world() != before:
            bad.append(([(n, i)], "changed the state of the interpreter or of NumPy"))
        return calls, len(hist), bad[:3]

    order = [[it] for it in items]
    raw = pool.run(order, one, limit=600.0)
    calls = hists = 0
    for it, r in zip(items, raw):
        o = r[0]
        if o is None:
            rep.exhaustive = False
            continue
        if runner.dead(o):
            rep.violation(f"{it[0]}|{it[1]}|{ops[it[2]][0]}", "a call never returned", {"item": it})
            continue
        calls += o[0]
        hists += o[1]
        rep.counts["correct"] += o[0] - len(o[2])
        for h, text in o[2]:
            name = " -> ".join(f"{m}: {ops[j][0]}" for m, j in h)
            rep.violation(name, text, {"history": [[m, list(map(str, ops[j]))] for m, j in h]})
    for j in jobs:
        if ref[j][1]:
            rep.violation(f"{j[0]}: {ops[j[1]][0]}", ref[j][1], {"call": j})
    rep.sample({"operations": [o[0] for o in ops]})
    rep.sample({"fresh outcomes of izzo2015": [_say(ref["izzo2015", i][0]) for i in range(k)]})
    rep.extra["histories"] = hists
    return solve.finish(
        rep, calls,
        f"every history of up to {depth} calls of one solver over the alphabet of operations, and every "
        "ordered pair of calls of two solvers, through reused buffers, with returned "
        "arrays overwritten by the caller; each outcome is compared bit by bit with the same call in a fresh process",
        hists,
    )


def _say(res):
    if res[0] != "ok":
        return ": ".join(map(str, res))[:80]
    return f"v1={np.frombuffer(res[1])} v2={np.frombuffer(res[2])}"


# ------------------------------------------------------------------ C17
def describe(mu, r1, v1, r2, t):
    """(state of the chart for spec, kwargs, x) of the arc from (r1, v1) to r2 after t."""
    n1, n2 = sqrt(r1 @ r1), sqrt(r2 @ r2)
    h = np.cross(r1, v1)
    cr = np.cross(r1, r2)
    short = np.arctan2(sqrt(cr @ cr), r1 @ r2)
    th = short if cr @ h > 0 else 2 * pi - short
    ll, s, _ = chart.lam(n2 / n1, th)
    inv_a = 2.0 / n1 - (v1 @ v1) / mu
    x2 = 1.0 - s * n1 * inv_a / 2.0
    x = sqrt(max(x2, 0.0))
    T = t * sqrt(2.0 * mu / (s * n1) ** 3)
    best = None
    for M in range(6):
        for q in (x, -x):
            if q <= -1 or (M and q >= 1):
                continue
            d = abs(chart.tof_x(ll, q, M) / T - 1)
            if best is None or d < best[0]:
                best = (d, M, q)
        if x >= 1:
            break
    d, M, q = best
    f = q
    if M:
        xm = chart.x_min(ll, M)
        f = (q - xm) / ((1 - xm) if q > xm else (1 + xm))
    return (n2 / n1, float(np.degrees(th)), M, f, 1, 0), h[2] > 0, d


def subdivision(rep):
    runner.warm(runner.ALL)
    table = runner.solvers()
    alphas = (0.1, 0.3, 0.5, 0.8) if THOROUGH else (0.25, 0.6)
    depth = 3 if THOROUGH else 2
    rho, th = (0.4, 1.0, 2.2), (25, 70, 130, 200, 260, 320)
    x0, fm, ms = (-0.7, -0.3, 0.1, 0.5, 0.9, 1.0, 1.2), (-0.6, -0.2, 0.3, 0.7), (1, 2)
    zero = [(r, t, 0, f, fr, 0) for r, t, f, fr in product(rho, th, x0, (5, 8))]
    mult = [(r, t, M, f, fr, 0) for r, t, M, f, fr in product(rho, th, ms, fm, (1, 2))]
    items = [(n, s) for n in runner.ALL for s in zero + (mult if n in runner.MULTI else [])]

    def one(item):
        n, s = item
        p = lattice.build(s)
        kw = spec.default_kw(n, s)
        bad, calls, ok, refused = [], 0, 0, 0
        try:
            v1, v2 = table[n](*p.args(), **p.kwargs(), **kw)[:2]
        except lattice.REJECT:
            # the whole is judged elsewhere
            return 1, 0, 1, []
        if not (np.isfinite(v1).all() and np.isfinite(v2).all()):
            return 1, 0, 0, [("whole", "not finite")]
        # pieces of the trajectory the solver returned: (path, r, v, duration)
        level = [("whole", p.r1, np.asarray(v1, float), p.tof)]
        for _ in range(depth):
            nxt = []
            for path, r, v, t in level:
                for a in alphas:
                    try:
                        rm, vm, _ = chart.propagate(p.mu, r, v, a * t)
                        re, ve, _ = chart.propagate(p.mu, rm, vm, (1 - a) * t)
                    except ArithmeticError:
                        bad.append((path, "the answer cannot be propagated"))
                        continue
                    for nm, ra, va, rb, vb, dt in ((f"{path} first {a}", r, v, rm, vm, a * t), (f"{path} last {1 - a:g}", rm, vm, re, ve, (1 - a) * t)):
                        c, pro, fit = describe(p.mu, ra, va, rb, dt)
                        g = c[1] % 180
                        if fit > 1e-6 or min(g, 180 - g) < 3 or (c[2] and n in runner.SINGLE):
                            continue
                        k2 = dict(spec.default_kw(n, c))
                        need = spec.required(n, c)
                        calls += 1
                        try:
                            w1, w2 = table[n](p.mu, ra.copy(), rb.copy(), dt, M=c[2], is_prograde=bool(pro), is_low_path=bool(c[3] > 0), **k2)[:2]
                        except lattice.REJECT as exc:
                            refused += 1
                            if need and not 0.02 > abs(c[3]) * bool(c[2]) > 0:
                                bad.append((nm, f"refused {c}: {exc}"[:150]))
                            continue
                        # sensitive pieces close to the minimum time are not compared
                        e = max(np.abs(w1 - va).max() / sqrt(va @ va), np.abs(w2 - vb).max() / sqrt(vb @ vb))
                        lim = 3 * spec.tol(n, c) + 1e-9
                        if c[2] and abs(c[3]) < 0.05 or c[2] and abs(c[3]) > 0.98:
                            lim = 0.3
                        if not need:
                            lim = max(lim, 0.05)
                        if not e <= lim:
                            bad.append((nm, f"piece {tuple(round(float(y), 6) for y in c[:4])} is another orbit: {e:.2g} (allowed {lim:.2g})"))
                        else:
                            ok += 1
                        nxt.append((nm, ra, va, dt))
            level = nxt
        return calls + 1, ok + 1, refused, bad[:3]

    res = runner.sweep(items, one, limit=60.0)
    calls = 0
    for (n, s), o in res:
        k = lattice.key(n, s)
        if o is None:
            rep.exhaustive = False
        elif runner.dead(o):
            rep.violation(k, "a call never returned", {"solver": n, "state": s})
        else:
            calls += o[0]
            rep.counts["correct"] += o[1]
            rep.counts["refused"] += o[2]
            for nm, text in o[3]:
                rep.violation(f"{k}|{nm}", text, {"solver": n, "state": s, "piece": nm})
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "pieces": o[0] if o and not runner.dead(o) else None})
    return solve.finish(
        rep, calls,
        f"every way to cut a transfer {depth} times at the listed fractions of its time: the "
        "trajectory returned for the whole is propagated to the cuts, and each piece is "
        "solved again and has to be the same trajectory",
        len(items),
    )


def main(pid):
    rep = harness.Report(pid, "model_checking")
    return {"C12": purity, "C17": subdivision}[pid](rep)
