"""C13, second half: the first calls of a process, in two threads.

State that a process builds up once (tables, caches, lazily made objects) is only being built
during its first calls.  Every schedule is therefore run in a process of its own that has
imported the package and called nothing.  It is interpreted (NUMBA_DISABLE_JIT=1), which needs
no compilation and makes every line of the package a preemption point.

Run as a program: python -m mc.checks.cold OUT.json
"""

import json
import os
import pickle
import signal
import sys

from mc import pool, runner
from mc.checks import schedule
from mc.checks.history import alphabet
from mc.harness import THOROUGH

# both threads have to come by the same places, on every branch there is
SAME = ("hyperbola", "parabola", "nearly a parabola", "equal distances", "two revolutions, other time")
PAIRS = [("base", "other sense"), ("one revolution, high", "one revolution, low"), *((o, o) for o in SAME)]
SLOW = {"pan2016", "negrete2024"}


def apart(fn, *args):
    """fn(*args) in a process that has called nothing so far; None if it does not come back."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            signal.alarm(60)
            with os.fdopen(w, "wb") as fh:
                pickle.dump(fn(*args), fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def jobs():
    out = []
    for n in runner.ALL:
        for p in PAIRS:
            if "revolution" in p[0] and n not in runner.MULTI:
                continue
            if n in SLOW and p[0] in SAME[1:] and not THOROUGH:
                continue
            out.append((n, *p))
    return out


def main(path):
    table = runner.solvers()
    ops = {o[0]: o for o in alphabet()}

    def one(item):
        n, oa, ob = item
        a, b, f = ops[oa], ops[ob], table[n]
        if n in SLOW:
            # fewer contour points and samples are enough here
            a, b = ((*o[:5], dict(o[5], maxiter=40)) if n == "negrete2024" else o for o in (a, b))
        ra, rb = apart(schedule.alone, f, a, n), apart(schedule.alone, f, b, n)
        if ra is None or rb is None:
            return 2, [(None, None, "an undisturbed first call never returned")]
        ks = schedule.chosen(ra[1], n not in SLOW)
        once = schedule.chosen(ra[1], False)
        kb = schedule.chosen(rb[1], False)
        todo = [(k, None) for k in ks]
        if THOROUGH and n not in SLOW:
            # the second thread is preempted as well
            todo += [(k, j) for k in once for j in kb[:: max(1, len(kb) // 25)]]
        bad = []
        for i, (k, j) in enumerate(todo):
            got = apart(schedule.interleave, f, a, n, f, b, n, k, j)
            if got is None:
                bad.append((k, j, f"the threads never came back when the first one was preempted at {ra[1][k]}"))
            elif tuple(got) != (ra[0], rb[0]):
                who = "first" if got[0] != ra[0] else "second"
                bad.append((k, j, f"the {who} thread got another answer when preempted at {ra[1][k]}"))
            if len(bad) > 2:
                return i + 1, bad
        return len(todo), bad

    items = jobs()
    raw = pool.run([[it] for it in items], one, limit=1500.0 if THOROUGH else 400.0)
    with open(path, "w", encoding="utf-8") as fh:
        json.dump([r[0] for r in raw], fh)


if __name__ == "__main__":
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    main(sys.argv[1])
