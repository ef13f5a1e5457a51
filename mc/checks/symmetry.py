"""C16: the symmetries of the two-body problem, applied in every order."""

from itertools import product
from math import cos, sin, sqrt

import numpy as np

from mc import harness, lattice, runner, spec
from mc.checks import solve
from mc.harness import THOROUGH


def rot_z(a):
    return np.array([[cos(a), -sin(a), 0.0], [sin(a), cos(a), 0.0], [0.0, 0.0, 1.0]])


# name: (matrix, length, mu, reversal of time, does the vertical angular momentum flip)
GENERATORS = {
    "length": (np.eye(3), 3.7e3, 1.0, False, False),
    "mass": (np.eye(3), 1.0, 4.1e-2, False, False),
    "tiny length": (np.eye(3), 3.3e-9, 1.0, False, False),
    "huge length": (np.eye(3), 2.7e11, 1.0, False, False),
    "tiny mass": (np.eye(3), 1.0, 1.9e-21, False, False),
    "huge mass": (np.eye(3), 1.0, 6.1e19, False, False),
    "turn": (rot_z(2.4), 1.0, 1.0, False, False),
    "mirror_z": (np.diag([1.0, 1.0, -1.0]), 1.0, 1.0, False, False),
    "mirror_x": (np.diag([-1.0, 1.0, 1.0]), 1.0, 1.0, False, True),
    "reverse": (np.eye(3), 1.0, 1.0, True, True),
}


def words(depth):
    out = []
    for d in range(1, depth + 1):
        out += product(GENERATORS, repeat=d)
    return out


class Problem:
    """A problem together with the map from its answer to that of the original."""

    def __init__(self, p, base):
        self.mu, self.r1, self.r2, self.tof = p.mu, p.r1, p.r2, p.tof
        self.M, self.prograde, self.low = p.M, base, p.low
        self.back = []
        self.time = self.length = 1.0

    def apply(self, name):
        Q, L, k, rev, flip = GENERATORS[name]
        r1, r2 = L * (Q @ self.r1), L * (Q @ self.r2)
        if rev:
            r1, r2 = r2, r1
        self.r1, self.r2, self.mu = r1, r2, self.mu * k
        self.tof *= sqrt(L**3 / k)
        self.time *= sqrt(L**3 / k)
        self.length *= L
        if flip:
            self.prograde = not self.prograde
        self.back.append(name)

    def undo(self, v1, v2):
        for name in reversed(self.back):
            Q, L, k, rev, _ = GENERATORS[name]
            if rev:
                v1, v2 = -v2, -v1
            c = sqrt(L / k)
            v1, v2 = c * (Q.T @ v1), c * (Q.T @ v2)
        return v1, v2

    def call(self, solver, **kw):
        try:
            out = solver(self.mu, self.r1.copy(), self.r2.copy(), self.tof, M=self.M,
                         is_prograde=self.prograde, is_low_path=self.low, **kw)  # fmt: skip
        except lattice.REJECT as exc:
            return ("reject", f"{type(exc).__name__}: {exc}"[:80])
        except Exception as exc:  # noqa: BLE001
            return ("other", f"{type(exc).__name__}: {exc}"[:80])
        return ("ok", out[0], out[1])


def main(pid):
    rep = harness.Report(pid, "model_checking")
    runner.warm(runner.ALL)
    table = runner.solvers()
    ws = words(3 if THOROUGH else 2)
    rho, th, fr = (0.6, 1.0, 1.9), (35, 100, 170, 220, 310), (1, 0)
    x0, fm, ms = (-0.7, 0.1, 0.6, 1.0, 1.3), (-0.6, 0.4), (1, 3)
    if THOROUGH:
        rho, th, fr = (0.2, *rho), (10, *th, 250), (1,)
    zero = [(r, t, 0, f, k, 0) for r, t, f, k in product(rho, th, x0, fr)]
    # a generator changes which branch of an iteration variable is taken at these
    zero += [(r, t, 0, f, 1, 0) for r, t, f in product((0.45, 1.0, 2.2), (5, 20, 40), (0.35, 0.8, 1.1, 1.4))]
    mult = [(r, t, M, f, k, 0) for r, t, M, f, k in product(rho, th, ms, fm, fr)]
    items = [(n, s) for n in runner.ALL for s in zero + (mult if n in runner.MULTI else []) if spec.required(n, s)]
    if not THOROUGH:
        items = [it for i, it in enumerate(items) if it[0] != "pan2016" or i % 6 == 0]
    else:
        items = [it for i, it in enumerate(items) if it[0] != "pan2016" or i % 20 == 0]

    def one(item):
        n, s = item
        p = lattice.build(s)
        kw = {"maxiter": 500} if n == "vallado2013" else {}
        absolute = {"jiang2016": 1e-5, "thorne2004": 1e-5, "delatorre2018": 1e-12}.get(n)
        base = Problem(p, p.prograde).call(table[n], **kw)
        if base[0] != "ok":
            return (0, [("", base[1])])
        scale = max(np.abs(base[1]).max(), np.abs(base[2]).max())
        bad, worst = [], 0.0
        lim = 2 * spec.tol(n, s)
        for w in ws:
            q = Problem(p, p.prograde)
            for g in w:
                q.apply(g)
            if absolute:
                # the tolerance of these is a time or a length (and, of the last, sometimes a pure number)
                kw["atol"] = absolute * min(q.time, q.length, *([1.0] if n == "delatorre2018" else []))
            o = q.call(table[n], **kw)
            if o[0] != "ok":
                bad.append((".".join(w), f"refused, though the original is solved: {o[1]}"))
                continue
            a, b = q.undo(o[1], o[2])
            d = max(np.abs(a - base[1]).max(), np.abs(b - base[2]).max()) / scale
            worst = max(worst, d) if d == d else np.inf
            if not d <= lim:
                bad.append((".".join(w), f"the mapped answer differs by {d:.2g} (allowed {lim:g})"))
        return (worst, bad[:3])

    res = runner.sweep(items, one, limit=90.0)
    worst = {}
    for (n, s), o in res:
        k = lattice.key(n, s)
        if o is None:
            rep.exhaustive = False
            continue
        if runner.dead(o):
            rep.violation(k, "a call never returned", {"solver": n, "state": s})
            continue
        rep.counts["correct"] += len(ws) - len(o[1])
        worst[n] = max(worst.get(n, 0.0), float(o[0]))
        for w, text in o[1]:
            rep.violation(f"{k}|word={w}", text, {"solver": n, "state": s, "word": w})
    rep.extra["largest difference"] = {n: float(f"{v:.1e}") for n, v in worst.items()}
    rep.extra["words"] = len(ws)
    for it, o in res[:: max(1, len(res) // 6)]:
        rep.sample({"solver": it[0], "state": list(it[1]), "worst": o if runner.dead(o) or o is None else o[0]})
    return solve.finish(
        rep, len(items) * (len(ws) + 1),
        "every word up to the depth over the symmetries of the problem (change of length, change of mass, "
        "turn, mirrors, reversal of time), mapped back and compared with the answer to the original problem",
        len(items),
    )
