"""Run one solver call per item over a family of items, in parallel."""

import os
from collections import Counter

from mc import harness, lattice, pool

SINGLE = ["gauss1809", "battin1984", "jiang2016", "pan2016", "thorne2004", "avanzini2008", "vallado2013"]
MULTI = ["gooding1990", "der2011", "arora2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]
ALL = SINGLE + MULTI
TIGHT = {"atol": 1e-12, "rtol": 1e-12, "maxiter": 1000}


def solvers(names=None):
    import lamberthub

    return {n: getattr(lamberthub, n) for n in (names or ALL)}


def compiled():
    return not os.environ.get("NUMBA_DISABLE_JIT")


def warm(names):
    """Compile every solver once, in parallel, into this run's own cache."""
    if not compiled():
        return
    table = solvers(names)
    # the slow ones first
    order = sorted(names, key=lambda n: n not in ("avanzini2008", "izzo2015", "negrete2024", "mcelreath2025", "gauss1809"))

    def one(name):
        for M, f in ((0, 0.3), (0, 1.3), (1, 0.4), (1, -0.4)):
            if M and name in SINGLE:
                continue
            lattice.call(table[name], lattice.build((1.5, 40.0, M, f, 1, 0)))
        return 0

    pool.run([[n] for n in order], one, limit=60.0, max_dead=4)


def sweep(items, fn, limit=20.0, nchunks=None, max_dead=6):
    """[(item, result)] in the order of items; result None = not run."""
    items = list(items)
    order = harness.shuffled(range(len(items)))
    n = nchunks or max(64, min(1024, len(items) // 200))
    chunks = harness.chunked(order, n)
    res = pool.run(chunks, lambda i: fn(items[i]), limit=limit, max_dead=max_dead)
    out = [None] * len(items)
    for c, r in zip(chunks, res):
        for i, o in zip(c, r):
            out[i] = o
    return list(zip(items, out))


def dead(o):
    return isinstance(o, str) and o in (pool.HANG, pool.CRASH)


def decade(e):
    import math

    if e != e:
        return "not finite"
    if e <= 1e-9:
        return "<=1e-9"
    return f"<=1e{min(9, math.ceil(math.log10(e)))}"


def count_classes(results):
    return Counter(r for r in results)
