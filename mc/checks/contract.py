"""C11: form of the output.  C18: the solver lists.  C28: type of the input."""

import inspect
import numbers
from itertools import product
from math import sqrt

import numpy as np

from mc import harness, lattice, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH

NAMES = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path", "maxiter", "atol", "rtol", "full_output"]


def form_errors(out, full, dtypes=(np.float64,)):
    """What is wrong with the shape of an answer."""
    if type(out) is not tuple:
        return [f"returned a {type(out).__name__} instead of a tuple"]
    if len(out) != (4 if full else 2):
        return [f"returned {len(out)} values"]
    bad = []
    for k, v in zip(("v1", "v2"), out):
        if not isinstance(v, np.ndarray) or v.shape != (3,) or v.dtype not in dtypes:
            bad.append(f"{k} is {type(v).__name__} {getattr(v, 'shape', '')} {getattr(v, 'dtype', '')}")
        elif not np.isfinite(v).all():
            bad.append(f"{k} is not finite")
    if full:
        n, tpi = out[2], out[3]
        if isinstance(n, bool) or not isinstance(n, (numbers.Integral, np.integer)) or n < 0:
            bad.append(f"number of iterations {n!r}")
        if not isinstance(tpi, (float, np.floating)) or not 0 <= tpi < 3600:
            bad.append(f"time per iteration {tpi!r}")
    return bad


def contract(rep):
    runner.warm(runner.ALL)
    table = runner.solvers()
    ncheck = 0
    for n in runner.ALL:
        sig = inspect.signature(table[n])
        d = {k: p.default for k, p in sig.parameters.items()}
        rp = {"solver": n, "signature": str(sig)}
        ncheck += 1
        if list(d) != NAMES:
            rep.violation(f"{n}|parameters", f"parameters are {list(d)}", rp)
        elif (d["M"], d["is_prograde"], d["is_low_path"], d["full_output"]) != (0, True, True, False):
            rep.violation(f"{n}|defaults", f"defaults are {d}", rp)
        elif not (d["maxiter"] >= 1 and 0 < d["atol"] < 1 and 0 < d["rtol"] < 1):
            rep.violation(f"{n}|tolerances", f"defaults are {d}", rp)
        else:
            rep.counts["correct"] += 1
    rho, th = (0.3, 1.0, 1.9), (8, 35, 100, 165, 205, 290)
    x0, fm, ms = (-0.6, -0.1, 0.0, 0.4, 0.9, 1.0, 1.2), (-0.6, 0.3), (1, 2)
    frames = (1, 2)
    if THOROUGH:
        rho, th, ms = (0.05, *rho, 0.7, 8.0), (*th, 3, 15, 60, 130, 178, 182, 240, 340), (1, 2, 3, 7)
        x0, fm, frames = (*x0, -0.95, 0.2, 1.6), (*fm, -0.2, 0.7), (0, 1, 2, 3, 4)
    zero = [(r, t, 0, f, fr, 0) for r, t, f, fr in product(rho, th, x0, frames)]
    mult = [(r, t, M, f, fr, 0) for r, t, M, f, fr in product(rho, th, ms, fm, frames)]
    # next to equal radii
    near = (1.0003, 0.99995, 1 - 1e-9)
    zero += [(r, t, 0, f, 1, 0) for r, t, f in product(near, (10, 60, 120, 200, 320), (-0.6, 0.2, 0.9, 1.0, 1.3))]
    fulls = (False, True, np.False_, np.True_)
    items = [(n, s) for n in runner.ALL for s in zero + (mult if n in runner.MULTI else [])]

    def one(item):
        n, s = item
        p = lattice.build(s)
        kw = spec.default_kw(n, s)
        f = table[n]
        defaults = {k: q.default for k, q in inspect.signature(f).parameters.items() if q.default is not q.empty}
        got, bad = [], []
        lows = (p.low,) if s[2] else (True, False)
        for full, pos, npb, low in product(fulls, (True, False), (True, False), lows):
            a = dict(zip(NAMES, p.args()))
            a.update({k: v for k, v in defaults.items() if k in ("maxiter", "atol", "rtol")})
            a.update(kw)
            a.update(
                M=s[2],
                is_prograde=np.bool_(p.prograde) if npb else p.prograde,
                is_low_path=np.bool_(low) if npb else low,
                full_output=full,
            )
            how = f"full_output={full!r} positional={pos} numpy flags={npb} low={low}"
            try:
                out = f(*[a[k] for k in NAMES]) if pos else f(**a)
            except lattice.REJECT as exc:
                got.append((how, None, f"{type(exc).__name__}: {exc}"[:90]))
                continue
            except Exception as exc:  # noqa: BLE001
                got.append((how, None, f"{type(exc).__name__}: {exc}"[:90]))
                bad.append(f"{how}: {type(exc).__name__}: {exc}"[:150])
                continue
            e = form_errors(out, bool(full))
            bad += [f"{how}: {x}" for x in e]
            if not e:
                got.append((how, np.concatenate(out[:2]), ""))
        oks = [g for g in got if g[1] is not None]
        if oks and len(oks) != len(got):
            g = next(g for g in got if g[1] is None)
            bad.append(f"refused with {g[0]} only: {g[2]}")
        scale = sqrt(p.v1 @ p.v1)
        if oks:
            d = max(np.abs(g[1] - oks[0][1]).max() for g in oks) / scale
            if not d < 1e-9:
                g = max(oks, key=lambda g: np.abs(g[1] - oks[0][1]).max())
                bad.append(f"{g[0]} changes the answer by {d:.2g}")
            # the numbers themselves are judged by the solve checks, roughly here
            e = lattice.error(p, oks[0][1][:3], oks[0][1][3:])
            if not e < max(0.1, 3 * spec.tol(n, s)):
                bad.append(f"wrong by {e:.2g}")
        elif spec.required(n, s):
            bad.append(f"refused: {got[0][2] if got else '?'}")
        return len(oks), len(got) - len(oks), bad[:3]

    res = runner.sweep(items, one, limit=60.0)
    calls = 0
    for (n, s), o in res:
        k = lattice.key(n, s)
        if o is None:
            rep.exhaustive = False
        elif runner.dead(o):
            rep.violation(k, "a call never returned", {"solver": n, "state": s})
        else:
            calls += o[0] + o[1]
            rep.counts["correct"] += o[0]
            rep.counts["refused"] += o[1]
            for b in o[2]:
                rep.violation(f"{k}|{b.split(':')[0]}", b, {"solver": n, "state": s})
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "answers": o[0] if o and not runner.dead(o) else None})
    return solve.finish(
        rep, calls + ncheck,
        "every way of calling (full_output as bool and NumPy bool, positional or by name, "
        "flags as bool and NumPy bool, irrelevant path flag) for every problem; all answers "
        "have the documented form and are the same",
        len(items),
    )


# ------------------------------------------------------------------ C18
def lists(rep):
    import lamberthub

    runner.warm(runner.ALL)
    table = runner.solvers()
    L = {k: getattr(lamberthub, k) for k in ("ALL_SOLVERS", "ZERO_REV_SOLVERS", "MULTI_REV_SOLVERS", "NON_ROBUST_SOLVERS", "ROBUST_SOLVERS")}
    N = {k: [f.__name__ for f in v] for k, v in L.items()}
    checks = 0

    def claim(ok, key, text):
        nonlocal checks
        checks += 1
        if ok:
            rep.counts["correct"] += 1
        else:
            rep.violation(key, text, {"lists": N})

    for k, v in N.items():
        claim(len(set(v)) == len(v) > 0, f"{k}|duplicates", f"{k} has duplicates: {v}")
        claim(set(v) <= set(N["ALL_SOLVERS"]), f"{k}|subset", f"{k} has solvers that ALL_SOLVERS lacks")
        for f in L[k]:
            claim(table.get(f.__name__) is f, f"{k}|{f.__name__}", f"{k} has something that is not the public solver {f.__name__}")
    public = {k for k, v in vars(lamberthub).items() if callable(v) and list(inspect.signature(v).parameters)[:4] == NAMES[:4]}
    claim(public == set(N["ALL_SOLVERS"]), "ALL_SOLVERS|public", f"public solvers {sorted(public)} against {sorted(N['ALL_SOLVERS'])}")
    claim(not set(N["ROBUST_SOLVERS"]) & set(N["NON_ROBUST_SOLVERS"]), "ROBUST|NON_ROBUST", "a solver is robust and not robust")
    # what the lists promise, on every point of a lattice
    rho, th = (0.3, 0.8, 1.0, 2.5), (91, 110, 135, 150, 170, 190, 215, 250, 290)
    x0, fm = (-0.7, -0.3, 0.0, 0.3, 0.7), (-0.7, -0.3, 0.3, 0.7)
    if THOROUGH:
        rho, th, x0 = (*rho, 0.15, 1.5, 6.0), tuple(range(91, 300, 7)), (*x0, -0.85, -0.5, 0.15, 0.5, 0.8)
    direct = [(r, t, 0, f, fr, 0) for r, t, f, fr in product(rho, th, x0, (1, 2))]
    multi = [(r, t, M, f, fr, 0) for r, t, M, f, fr in product(rho, th, (1, 2), fm, (1, 2))]
    items = [(n, s) for n in table for s in direct + multi]

    def one(item):
        n, s = item
        return lattice.call(table[n], lattice.build(s), **spec.default_kw(n, s))

    res = runner.sweep(items, one)
    per = {}
    for (n, s), o in res:
        k = lattice.key(n, s)
        rp = {"solver": n, "state": s}
        if o is None:
            rep.exhaustive = False
            continue
        per.setdefault(s, []).append((n, o))
        listed = n in N["MULTI_REV_SOLVERS"] if s[2] else n in N["ZERO_REV_SOLVERS"] or n in N["ROBUST_SOLVERS"]
        if runner.dead(o):
            rep.violation(k, "a call never returned", rp)
        elif s[2] and not listed:
            claim(o[0] == "reject" and o[1].startswith("ValueError"), k + "|not listed", f"is not listed as multi-revolution but did not raise ValueError: {o[:2]}")
            rep.counts["correct"] -= o[0] == "reject"
            rep.counts["refused"] += o[0] == "reject"
        elif listed:
            claim(o[0] == "ok" and o[1] <= spec.tol(n, s), k + "|listed", f"is listed as able to solve this: {o[:2]}")
        elif o[0] == "ok":
            claim(o[1] <= 10 * spec.tol(n, s), k, f"wrong by {o[1]:.2g}")
        else:
            rep.counts["refused"] += 1
    # all answers to one problem agree
    for s, lst in per.items():
        a = [(n, np.concatenate([o[2], o[3]])) for n, o in lst if not runner.dead(o) and o[0] == "ok"]
        sc = np.abs(np.array([x for _, x in a])).max()
        for i in range(len(a)):
            for j in range(i):
                d = np.abs(a[i][1] - a[j][1]).max() / sc
                lim = 3 * (spec.tol(a[i][0], s) + spec.tol(a[j][0], s))
                claim(d <= lim, f"{lattice.key(a[i][0], s)}|{a[j][0]}", f"{a[i][0]} and {a[j][0]} differ by {d:.2g}")
    rep.sample(N)
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "outcome": o[0] if o else None})
    return solve.finish(
        rep, checks,
        "every listed and unlisted (solver, problem) pair of a lattice, and every pair of "
        "solvers on every problem",
        len(items),
    )


# ------------------------------------------------------------------ C28
def forms(r, how):
    r = np.asarray(r, float)
    if how == "int64":
        return r.astype(np.int64)
    if how == "int32":
        return r.astype(np.int32)
    if how == "float32":
        return r.astype(np.float32)
    if how == "strided":
        b = np.full(6, np.nan)
        b[::2] = r
        return b[::2]
    if how == "reversed":
        return r[::-1].copy()[::-1]
    if how == "column":
        b = np.full((3, 4), np.nan)
        b[:, 2] = r
        return b[:, 2]
    if how == "read-only":
        r = r.copy()
        r.setflags(write=False)
        return r
    return r.copy()


SCALARS = {
    "float": float, "int": int, "np.float64": np.float64, "np.int64": np.int64, "np.int32": np.int32,
}  # fmt: skip


def inputs(rep):
    table = runner.solvers()
    probs = [((4, 1, -2), (-1, 5, 3), 20, 9, True), ((4, 1, -2), (-1, 5, 3), 20, 9, False), ((3, 0, 0), (0, 2, 1), 5, 4, True)]
    multi = [((4, 1, -2), (-1, 5, 3), 200, 9, True, 1), ((2, 2, 1), (-3, 1, 0), 300, 2, False, 2)]
    r_forms = ["int64", "strided", "read-only", "float32", "reversed"] + (["column", "int32"] if THOROUGH else [])
    pairs = [(f, f) for f in r_forms] + [("int64", "float"), ("float", "int64"), ("read-only", "strided")]
    if THOROUGH:
        pairs = list(product(["float", *r_forms], repeat=2))
    scal = [(a, b) for a, b in product(SCALARS, repeat=2)] if THOROUGH else [
        ("int", "int"), ("np.float64", "np.float64"), ("np.int64", "int"), ("float", "np.int32"), ("int", "float")]  # fmt: skip
    fractions = [(0, 0, 0, 0), (1, 0, 0, 1), (0, 1, 1, 0), (1, 1, 1, 1)]
    if THOROUGH:
        fractions = list(product((0, 1), repeat=4))
    combos = [("float", "float", "float", "float", "int")]
    combos += [(a, b, "float", "float", "int") for a, b in pairs]
    combos += [("float", "float", a, b, "int") for a, b in scal]
    combos += [("float", "float", "float", "float", m) for m in ("np.int64", "np.int32")]
    combos += [("int64", "int64", "int", "int", "np.int64")]

    def one(item):
        # one solver and one combination of types: every problem
        n, (fa, fb, fm, ft, fM) = item
        out = []
        whole = ("int64", "int32", "int", "np.int64", "np.int32")
        for q, frac in product(probs + (multi if n in runner.MULTI else []), fractions):
            r1, r2, tof, mu, pg = q[:5]
            M = q[5] if len(q) > 5 else 0
            # the same problems with values that only the other types can hold
            if any(f and t in whole for f, t in zip(frac, (fa, fb, fm, ft))):
                out.append(("left out",))
                continue
            r1, r2 = np.array(r1) + frac[0] * np.array([0.5, -0.25, 0.5]), np.array(r2) + frac[1] * np.array([0.25, 0.5, -0.5])
            mu, tof = mu + 0.5 * frac[2], tof + 0.25 * frac[3]
            a, b = forms(r1, fa), forms(r2, fb)
            ka, kb = a.copy(), b.copy()
            try:
                v = table[n](SCALARS[fm](mu), a, b, SCALARS[ft](tof), M=SCALARS[fM](M), is_prograde=pg,
                             **({"maxiter": 500} if n == "vallado2013" else {}))
            except lattice.REJECT as exc:
                out.append(("reject", f"{type(exc).__name__}: {exc}"[:100]))
                continue
            except Exception as exc:  # noqa: BLE001
                out.append(("other", f"{type(exc).__name__}: {exc}"[:100]))
                continue
            if not (np.array_equal(a, ka) and np.array_equal(b, kb)):
                out.append(("other", "changed its arguments"))
                continue
            bad = form_errors(v, False, (np.float64, np.float32) if "float32" in (fa, fb) else (np.float64,))
            out.append(("other", bad[0]) if bad else ("ok", np.concatenate(v)))
        return out

    # one chunk per solver and combination: compiling is most of the work
    items = [(n, c) for c in combos for n in runner.ALL]
    order = sorted(range(len(items)), key=lambda i: items[i][0] not in ("avanzini2008", "negrete2024", "izzo2015"))
    from mc import pool

    raw = pool.run([[items[i]] for i in order], one, limit=120.0)
    got = {items[i]: r[0] for i, r in zip(order, raw)}
    calls = 0
    for n in runner.ALL:
        ref = got[(n, combos[0])]
        if ref is None or runner.dead(ref):
            rep.violation(f"{n}|reference", "the call never returned", {"solver": n})
            continue
        for c in combos:
            o = got[(n, c)]
            k = f"{n}|{','.join(c)}"
            if o is None:
                rep.exhaustive = False
                continue
            if runner.dead(o):
                rep.violation(k, "the call never returned", {"solver": n, "types": c})
                continue
            for i, (x, y) in enumerate(zip(ref, o)):
                if y[0] == "left out":
                    continue
                calls += 1
                if x[0] != y[0]:
                    rep.violation(f"{k}|problem {i}", f"{x[0]} with plain floats, {y[0]} with these types: {y[1]}", {"solver": n, "types": c})
                elif x[0] == "ok":
                    d = np.abs(x[1] - y[1]).max() / np.abs(x[1]).max()
                    lim = 1e-5 if "float32" in c else 1e-9
                    if not d < lim:
                        rep.violation(f"{k}|problem {i}", f"another answer ({d:.2g}) with these types", {"solver": n, "types": c})
                    else:
                        rep.counts["correct"] += 1
                elif n not in ("gauss1809", "negrete2024"):
                    rep.violation(f"{k}|problem {i}", f"refused a solvable problem: {y[1]}", {"solver": n, "types": c})
                else:
                    rep.counts["refused"] += 1
    for c in combos[:6]:
        rep.sample({"types of r1, r2, mu, tof, M": c})
    return solve.finish(
        rep, calls,
        "every combination of the listed array layouts and number types for every solver; "
        "the answers have to be those for plain floats",
        len(items),
    )


def main(pid):
    rep = harness.Report(pid, "model_checking")
    return {"C11": contract, "C18": lists, "C28": inputs}[pid](rep)
