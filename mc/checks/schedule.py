"""C13: two threads call solvers at the same time, under a controlled scheduler.

Every line of the package that the interpreter executes is a point at which the
running thread can lose the processor (compiled code is atomic, it keeps the GIL).
A schedule with two preemptions is (k0, k1): the first thread runs up to its k0-th
point, the second one up to its k1-th, then the first one to its end and the second
one to its end.  Points are all executed lines, first and last visit of each line.
"""

import json
import os
import subprocess
import sys
import tempfile
import threading
from itertools import product

import numpy as np

from mc import harness, pool, runner
from mc.checks import solve
from mc.checks.history import alphabet
from mc.harness import SRC, THOROUGH

ROOT = os.path.join(os.path.realpath(SRC), "lamberthub")


class Stepper:
    """Runs a call, stopping at the point it is told to."""

    def __init__(self, call):
        self.call = call
        self.turn = threading.Semaphore(0)
        self.points = []
        self.stop_at = None
        self.result = None
        self.other = None
        self.done = False

    def local(self, frame, event, arg):
        if event == "line":
            i = len(self.points)
            self.points.append((frame.f_code.co_name, frame.f_lineno))
            if i == self.stop_at and not self.other.done:
                self.stop_at = None
                self.other.turn.release()
                self.turn.acquire()
        return self.local

    def trace(self, frame, event, arg):
        if os.path.realpath(frame.f_code.co_filename).startswith(ROOT) if frame.f_code not in _OURS else _OURS[frame.f_code]:
            _OURS[frame.f_code] = True
            return self.local
        _OURS[frame.f_code] = False
        return None

    def run(self):
        sys.settrace(self.trace)
        try:
            self.result = self.call()
        finally:
            sys.settrace(None)
            self.done = True


_OURS = {}


def outcome(f, op, n):
    _, mu, r1, r2, tof, kw = op
    kw = dict(kw)
    if n == "vallado2013":
        kw.setdefault("maxiter", 500)
    r1, r2 = np.array(r1), np.array(r2)

    def call():
        try:
            out = f(mu, r1, r2, tof, **kw)
        except Exception as exc:  # noqa: BLE001
            return (type(exc).__name__, str(exc))
        return out

    def read(out):
        # the caller looks at its answer when both threads are done
        if out is None or isinstance(out[0], str):
            return out
        return (out[0].tobytes(), out[1].tobytes(), *out[2:3], r1.tobytes(), r2.tobytes())

    return call, read


def alone(f, op, n):
    call, read = outcome(f, op, n)
    s = Stepper(call)
    s.run()
    return read(s.result), s.points


def interleave(fa, a, na, fb, b, nb, k0, k1):
    ca, ra = outcome(fa, a, na)
    cb, rb = outcome(fb, b, nb)
    A, B = Stepper(ca), Stepper(cb)
    A.other, B.other = B, A
    A.stop_at, B.stop_at = k0, k1

    def body(me, other):
        me.turn.acquire()
        me.run()
        other.turn.release()

    ts = [threading.Thread(target=body, args=x, daemon=True) for x in ((A, B), (B, A))]
    for t in ts:
        t.start()
    A.turn.release()
    for t in ts:
        t.join()
    return ra(A.result), rb(B.result)


def chosen(points, dense):
    """Indices at which a preemption is tried: first and last visit of every line."""
    first, last, second = {}, {}, {}
    for i, p in enumerate(points):
        if p in first and p not in second:
            second[p] = i
        first.setdefault(p, i)
        last[p] = i
    s = set(first.values())
    if dense:
        s |= set(last.values()) | set(second.values())
    return sorted(s)


def first_calls(rep, cold):
    with tempfile.TemporaryDirectory(prefix="lh-mc-") as tmp:
        env = dict(os.environ, NUMBA_DISABLE_JIT="1")
        env["PYTHONPATH"] = os.pathsep.join([harness.SRC, harness.VERIF])
        out = os.path.join(tmp, "out.json")
        subprocess.run([sys.executable, "-m", "mc.checks.cold", out], env=env, cwd=harness.VERIF, check=True, stdout=subprocess.DEVNULL)
        with open(out, encoding="utf-8") as fh:
            res = json.load(fh)
    n = 0
    for it, o in zip(cold.jobs(), res):
        key = f"{it[0]}: {it[1]} || {it[2]}|first calls"
        if o is None:
            rep.exhaustive = False
        elif runner.dead(o):
            rep.violation(key, "the threads never came back", {"item": it})
        else:
            n += o[0]
            rep.counts["correct"] += o[0] - len(o[1])
            for k0, k1, text in o[1]:
                rep.violation(f"{key}|schedule ({k0}, {k1})", text, {"item": it, "schedule": [k0, k1]})
    return n


def main(pid):

    from mc.checks import cold

    rep = harness.Report(pid, "model_checking")
    rep.assumptions = [
        "compiled functions are atomic: Numba keeps the global interpreter lock",
        "preemptions happen between lines, at most two of them",
    ]
    runner.warm(runner.ALL)
    table = runner.solvers()
    ops = alphabet()
    idx = {o[0]: i for i, o in enumerate(ops)}
    pairs = [("base", "other sense"), ("one revolution, high", "one revolution, low"), ("full output", "swapped"), ("hyperbola", "tiny budget")]
    if THOROUGH:
        names = ("base", "other sense", "other mu", "swapped", "one revolution, low", "one revolution, high", "hyperbola", "tiny budget", "invalid", "full output", "tight")
        pairs = list(product(names, repeat=2))
    slow = {"pan2016", "gauss1809", "delatorre2018"}
    items = []
    for n in runner.ALL:
        for p in pairs:
            items.append((n, n, *p))
    cross = [(a, b) for a in runner.ALL for b in runner.ALL if a != b]
    items += [(a, b, "base", "other sense") for a, b in cross]

    def one(item):
        na, nb, oa, ob = item
        a, b = ops[idx[oa]], ops[idx[ob]]
        fa, fb = table[na], table[nb]
        refa, pa = alone(fa, a, na)
        refb, pb = alone(fb, b, nb)
        bad, n = [], 0
        deep = na == nb and (THOROUGH and na != "pan2016" or na not in slow and oa in ("base", "one revolution, high"))
        ka = chosen(pa, na == nb and na != "pan2016")
        kb = chosen(pb, THOROUGH) if deep else []
        once = set(chosen(pa, False))
        if not deep and na != nb:
            ka = chosen(pa, False) if "pan2016" not in (na, nb) or THOROUGH else chosen(pa, False)[::8]
        if na == nb == "pan2016" and not THOROUGH:
            ka = ka[::2]
        for k0 in ka:
            for k1 in [None, *kb] if THOROUGH or k0 in once else [None]:
                n += 1
                got = interleave(fa, a, na, fb, b, nb, k0, k1)
                if got != (refa, refb):
                    who = "first" if got[0] != refa else "second"
                    bad.append((k0, k1, f"the {who} thread got another answer when preempted at {pa[k0]}" + (f" and {pb[k1]}" if k1 is not None else "")))
                    if len(bad) > 2:
                        return n, len(ka), bad
        return n, len(ka), bad

    raw = pool.run([[it] for it in items], one, limit=1500.0 if THOROUGH else 240.0)
    sched = 0
    for it, r in zip(items, raw):
        o = r[0]
        k = f"{it[0]}: {it[2]} || {it[1]}: {it[3]}"
        if o is None:
            rep.exhaustive = False
        elif runner.dead(o):
            rep.violation(k, "the threads never came back", {"item": it})
        else:
            sched += o[0]
            rep.counts["correct"] += o[0] - len(o[2])
            for k0, k1, text in o[2]:
                rep.violation(f"{k}|schedule ({k0}, {k1})", text, {"item": it, "schedule": [k0, k1]})
    rep.extra["schedules"] = sched
    first = first_calls(rep, cold)
    rep.extra["schedules_of_first_calls"] = first
    for it, r in list(zip(items, raw))[:: max(1, len(items) // 6)]:
        rep.sample({"threads": it, "schedules": r[0][0] if r[0] and not runner.dead(r[0]) else None})
    return solve.finish(
        rep, sched + first,
        "every schedule with at most two preemptions (one for the slow solvers and for two "
        "different solvers) of two concurrent calls; both answers have to be those of undisturbed calls, bit by bit; "
        "and every schedule with one preemption of the first two calls of a process, interpreted",
        len(items) + len(cold.jobs()),
    )
