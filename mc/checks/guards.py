"""C07, C08, C09: every combination of faulty inputs has to be refused."""

import copy
from itertools import combinations, product
from math import pi

import numpy as np

from mc import harness, lattice, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH

NAN, INF = float("nan"), float("inf")


def attempt(fn, *a, accept=ValueError, **k):
    """'ValueError' | 'returned: ...' | 'raised: ...'"""
    try:
        out = fn(*a, **k)
    except accept:
        return "ValueError"
    except Exception as exc:  # noqa: BLE001
        return f"raised {type(exc).__name__}: {exc}"[:100]
    return f"returned {out!r}"[:100]


def record(rep, res, what):
    for it, o in res:
        k = "|".join(str(x) for x in it)
        if o is None:
            rep.exhaustive = False
            rep.counts["not run"] += 1
        elif o == "ValueError":
            rep.counts["refused"] += 1
            rep.counts[f"{it[0]}: refused"] += 1
        else:
            rep.counts["not refused"] += 1
            text = "the call never returned" if runner.dead(o) else o
            rep.violation(k, f"{what}: {text}", {"item": list(map(str, it))})
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"item": [str(x) for x in it], "outcome": str(o)})


# ------------------------------------------------------------------ C07
REVS = [1, 2, 3, 4, 7, 10, 25, 100, 10**6, np.int64(1), np.int32(2), np.int16(3), np.int8(1), np.uint8(1), np.int64(50)]


def single_rev(rep):
    runner.warm(runner.SINGLE)
    table = runner.solvers(runner.SINGLE)
    rho, th = (0.1, 0.5, 1.0, 1.9, 20.0), (10, 60, 120, 175, 200, 260, 350)
    fs = (-0.5, 0.2, 0.9, 1.2)
    if THOROUGH:
        rho, th, fs = rho + (0.01, 0.8, 3.0, 100.0), tuple(range(5, 360, 10)), fs + (-0.9, -0.2, 0.5, 1.0)
    base = [(r, t, 0, f, fr, u) for r, t, f, (fr, u) in product(rho, th, fs, ((1, 0), (4, 1)))]
    # problems that do have solutions with complete revolutions
    base += [(r, t, 1, f, 2, 0) for r, t, f in product(rho, th, (-0.5, 0.5))]
    items = [
        (n, s, i, low, full)
        for n, s, i, (low, full) in product(runner.SINGLE, base, range(len(REVS)), ((True, False), (False, False), (True, True)))
    ]

    def one(item):
        n, s, i, low, full = item
        p = lattice.build(s)
        return attempt(table[n], *p.args(), M=REVS[i], is_prograde=p.prograde, is_low_path=low, full_output=full)

    res = runner.sweep(items, one)
    record(rep, res, "complete revolutions were not refused")
    # ... and none is still none, whatever its type
    zeros = [0, np.int64(0), np.int32(0), np.int16(0), np.int8(0)]
    items2 = [(n, s, i) for n, s, i in product(runner.ALL, [b for b in base if b[2] == 0][:: (3 if THOROUGH else 9)], range(len(zeros)))]
    table2 = runner.solvers()

    def two(item):
        n, s, i = item
        return lattice.call(table2[n], lattice.build(s), M=zeros[i], **spec.default_kw(n, s))

    res2 = runner.sweep(items2, two)
    for (n, s, i), o in res2:
        rep.counts[solve.judge(rep, n, s, o, spec.required(n, s), mode=f"|M={zeros[i]!r}")] += 1
    return solve.finish(
        rep, len(res) + len(res2),
        "every (problem, number of revolutions, path, output form) is put to every "
        "single-revolution solver; the outcome has to be ValueError",
    )


# ------------------------------------------------------------------ C08
def faults(p):
    """name -> function changing a dict of arguments into faulty ones."""
    f = {}

    def put(name, where, value):
        f[name] = (where, lambda a, where=where, value=value: a.__setitem__(where, value(a) if callable(value) else value))

    for v in (0, 0.0, -0.0, -1, -p.mu, NAN, INF, -INF, np.float64(-2.0), np.float64(NAN), np.int64(0)):
        put(f"mu={v!r}", "mu", v)
    for v in (0, 0.0, -0.0, -1, -p.tof, NAN, INF, -INF, np.float64(-2.0), np.float64(INF), np.int64(-7)):
        put(f"tof={v!r}", "tof", v)
    for v in (-1, -2, -100, np.int64(-1), np.int8(-3)):
        put(f"M={v!r}", "M", v)
    for r in ("r1", "r2"):
        put(f"{r}=null", r, lambda a, r=r: np.zeros(3))
        put(f"{r}=null int", r, lambda a, r=r: np.zeros(3, int))
        put(f"{r}=-null", r, lambda a, r=r: -np.zeros(3))
        for k in range(3):
            for bad in (NAN, INF, -INF):

                def poke(a, r=r, k=k, bad=bad):
                    x = np.array(a[r], float)
                    if x.shape != (3,):
                        x = np.ones(3)
                    x[k] = bad
                    return x

                put(f"{r}[{k}]={bad}", r, poke)
        for shape in ((2,), (4,), (0,), (1,), (6,), (1, 3), (3, 1), (3, 3), ()):
            put(f"{r} of shape {shape}", r, lambda a, shape=shape: np.ones(shape) * 0.7)
    f["r2=r1"] = ("r2", lambda a: a.__setitem__("r2", np.array(a["r1"])))
    f["r1=r2"] = ("r1", lambda a: a.__setitem__("r1", np.array(a["r2"])))
    f["r2 is r1"] = ("r2", lambda a: a.__setitem__("r2", a["r1"]))
    return f


def validation(rep):
    runner.warm(runner.ALL)
    table = runner.solvers()
    states = [(1.5, 40.0, 0, 0.3, 1, 0), (0.8, 250.0, 0, -0.2, 2, 1)]
    if THOROUGH:
        states += [(3.0, 120.0, 0, 1.3, 5, 2), (1.0, 300.0, 0, 0.7, 0, 4)]
    multi = [(1.5, 40.0, 1, 0.4, 1, 0), (0.8, 250.0, 2, -0.3, 2, 1)]
    names = list(faults(lattice.build(states[0])))
    names2 = {s: list(faults(lattice.build(s))) for s in states + multi}
    where = {k: v[0] for k, v in faults(lattice.build(states[0])).items()}

    items = []
    flags = list(product((True, False), (True, False), (True, False)))
    for n in runner.ALL:
        for s in states + (multi if n in runner.MULTI else []):
            for i in range(len(names2[s])):
                for fl in flags:
                    items.append((n, s, (i,), fl))
            # two faults at once, in different arguments
            for i, j in combinations(range(len(names)), 2):
                if where[names[i]] == where[names[j]]:
                    continue
                if s != states[0] and not THOROUGH:
                    continue
                items.append((n, s, (i, j), flags[0]))
                if "r" in where[names[i]] and "=r" in names[j] or " is " in names[j]:
                    items.append((n, s, (j, i), flags[0]))

    def one(item):
        n, s, idx, (pg, low, full) = item
        p = lattice.build(s)
        a = dict(zip(("mu", "r1", "r2", "tof"), p.args()))
        a.update(M=p.M, is_prograde=p.prograde == pg, is_low_path=p.low == low, full_output=full)
        fl = list(faults(p).values())
        for i in idx:
            fl[i][1](a)
        before = {k: np.array(a[k]) for k in ("r1", "r2")}
        out = attempt(table[n], **a)
        for k in before:
            if not np.array_equal(before[k], a[k], equal_nan=True):
                return f"{out} and changed {k}"
        return out

    res = runner.sweep(items, one)
    res = [((n, s, "+".join(names2[s][i] for i in idx), fl), o) for (n, s, idx, fl), o in res]
    record(rep, res, "faulty input was not refused")
    rep.extra["faults"] = names
    return solve.finish(
        rep, len(res),
        "every single fault of every argument, and every pair of faults in two "
        "arguments, injected into valid problems for every solver; the outcome has "
        "to be ValueError and the arrays must be left alone",
    )


# ------------------------------------------------------------------ C09
def collinear(rep):
    runner.warm(runner.ALL)
    table = runner.solvers()
    dirs = [v for v in product((-1.0, 0.0, 1.0), repeat=3) if any(v)]
    dirs += [(0.3, -1.7, 0.9), (1.1e3, 0.1, -7.7), (-0.2, 0.57, 0.33), (6378.137, -1234.5, 42.0)]
    ks = (0.1, 1 / 3, 0.5, 0.7, 1.5, 2.0, 3.0, 7.3, 1e3)
    ks = ks + tuple(-k for k in ks) + (-1.0, 1.0 + 2**-40)
    noise = [v for v in product((-1, 0, 1), repeat=3)]
    few = [(0, 0, 0), (1, 0, 0), (0, -1, 0), (0, 0, 1), (1, -1, 1)]
    scales = (1.0, 7000.0, 1.5e11, 1e-5)
    items = []
    for n in runner.ALL:
        for d, k, pg in product(dirs, ks, (True, False)):
            for z in noise if THOROUGH else few:
                items.append((n, d, k, pg, z, 1.0, 0, 1.0))
        for d, k, pg, sc in product(dirs[::3] + dirs[-3:], ks[::2] + (-1.0,), (True, False), scales[1:]):
            items.append((n, d, k, pg, (0, 0, 0), sc, 0, 1.0))
        for d, k, t in product(dirs[::5], ks[1::3], (1e-2, 0.3, 10.0, 300.0)):
            items.append((n, d, k, True, (0, 1, 0), 1.0, 0, t))
        if n in runner.MULTI:
            for d, k, pg, M, low in product(dirs[::4], ks[::3], (True, False), (1, 3), (True, False)):
                items.append((n, d, k, pg, (0, 0, 0) if low else (0, 1, -1), 1.0, M, 200.0))

    def one(item):
        n, d, k, pg, z, sc, M, t = item
        r1 = sc * np.array(d)
        r2 = k * r1
        for i in range(3):
            if z[i] and r2[i]:
                r2[i] = np.nextafter(r2[i], z[i] * INF)
        if np.array_equal(r1, r2):
            return "ValueError"
        mu = sc**3
        L = max(np.sqrt(r1 @ r1), np.sqrt(r2 @ r2))
        return attempt(table[n], mu, r1, r2, t * np.sqrt(L**3 / mu), M=M, is_prograde=pg, accept=(ValueError, RuntimeError), **spec.default_kw(n, (1, 1, 0, 1, 0, 0)))

    res = runner.sweep(items, one, limit=30.0)
    record(rep, res, "collinear positions (undefined orbit plane) were not refused")
    return solve.finish(
        rep, len(res),
        "26 lattice directions and more, multiples of both signs, every pattern of "
        "one-ulp disturbances, both senses; the outcome has to be an explicit error",
    )


def main(pid):
    rep = harness.Report(pid, "fault_enumeration" if pid == "C08" else "model_checking")
    rep.assumptions = ["the listed faults stand for their kind: other NaN payloads, other shapes behave alike"]
    return {"C07": single_rev, "C08": validation, "C09": collinear}[pid](rep)
