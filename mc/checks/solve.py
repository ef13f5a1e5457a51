"""C01, C02, C03: exhaustive forward-built lattices against the real solvers."""

import os

from mc import families, harness, lattice, runner, spec


def judge(rep, name, state, out, need, tight=False, why="", limit=None, mode="", only=False):
    """Classify one outcome; returns the class it was counted under."""
    k = lattice.key(name, state, mode)
    rp = {"solver": name, "state": list(state), "kwargs": why}
    if out is None:
        rep.exhaustive = False
        return "not run"
    if runner.dead(out):
        rep.violation(k, "the call never returned" if "HANG" in out else "the call killed the interpreter", rp)
        return "no return"
    if out[0] != "ok":
        if need:
            rep.violation(k, f"refused a solvable problem: {out[1]}", rp)
            return "refused, owed"
        return "refused"
    err = out[1]
    lim = limit if limit is not None else spec.tol(name, state, tight)
    if not err <= lim:
        rep.violation(k, f"velocities wrong by {err:.3g} (allowed {lim:g})", {**rp, "answer": [list(map(float, out[2])), list(map(float, out[3]))]})
        return "wrong"
    return "correct"


def explore(rep, names, states, need, tight=False, limit=20.0, kwargs=None, key_extra="", cap=None, soft=False):
    """Run every (solver, state); need(name, state) -> must answer."""
    table = runner.solvers(names)
    kw = kwargs or spec.default_kw

    def one(item):
        n, s = item
        return lattice.call(table[n], lattice.build(s), soft=soft, **kw(n, s))

    items = [(n, s) for n in names for s in states if not (s[2] and n in runner.SINGLE)]
    res = runner.sweep(items, one, limit=limit)
    worst = {}
    for (n, s), o in res:
        c = judge(rep, n, s, o, need(n, s), tight, kw(n, s), mode=key_extra,
                  limit=cap(n, s) if cap else None)
        rep.counts[c] += 1
        rep.counts[f"{n}: {c}"] += 1
        if c == "correct":
            rep.classes.add((n, s[2], runner.decade(o[1])))
            if o[1] > worst.get(n, (0.0, None))[0]:
                worst[n] = (float(o[1]), s)
    for n, (e, s) in worst.items():
        w = rep.extra.setdefault("largest_accepted_error", {})
        if e > w.get(n, {"error": 0})["error"]:
            w[n] = {"error": float(f"{e:.2e}"), "state": list(s)}
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "outcome": str(o[0]) if o else None})
    return res


def finish(rep, executions, rule, states=None):
    """states: distinct model states; executions: runs of the real code from them."""
    cov = {"rule": rule, "compiled": not os.environ.get("NUMBA_DISABLE_JIT")}
    if rep.level == "model_checking":
        cov.update(
            states=executions if states is None else states,
            transitions=executions,
            traces_validated_against_impl=rep.counts["correct"] + rep.counts["refused"],
        )
    else:
        cov.update(evaluations=executions, distinct_nontrivial=rep.counts["correct"] + rep.counts["refused"])
    return rep.finish(cov)


RULE = (
    "every point of a lattice of orbit arcs (ratio of radii, transfer angle, orbit, "
    "revolutions, orientation, units); the arc fixes the time of flight and both "
    "velocities in closed form, the real solver is run on every point and its outcome compared with the model"
)


def main(pid):
    rep = harness.Report(pid, "model_checking")
    rep.assumptions = [
        "the closed-form chart of mc/chart.py is right (selftest: two-body propagation)",
        "behaviour between lattice points is not observed",
    ]
    if pid == "C01":
        runner.warm(runner.ALL)
        a = families.zero_core()
        b = families.zero_frames()
        r = explore(rep, runner.ALL, a + b + families.zero_seams(), spec.required)
    elif pid == "C02":
        runner.warm(runner.MULTI)
        r = explore(rep, runner.MULTI, families.multi_core() + families.multi_frames(), spec.required)
    elif pid == "C03":
        runner.warm(runner.ALL)
        states = families.edge_zero() + families.edge_multi()
        r = explore(rep, runner.ALL, states, lambda n, s: False, kwargs=spec.edge_kw, cap=spec.edge_tol, soft=True)
    else:
        raise KeyError(pid)
    return finish(rep, len(r), RULE, len({i[1] for i, _ in r}))
