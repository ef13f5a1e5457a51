"""What every check shares: environment, bookkeeping, verdict and evidence."""

import json
import os
import random
import sys
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path, encoding="utf-8") as fh:
        data = json.load(fh)
    return {e["key"]: e["what"] for e in data["known"] if e["property"] == pid}


class Report:
    """Collects what a run covered, and decides its exit status."""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.known = load_known(pid)
        self.hit = {}
        self.viol = []
        self.nviol = 0
        self.counts = Counter()
        self.classes = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.exhaustive = True

    def sample(self, obj, cap=8):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def violation(self, key, what, replay):
        """A broken property: key names the exact input, call site or history."""
        if key in self.known:
            self.hit[key] = self.known[key]
            return
        self.nviol += 1
        if len(self.viol) < int(os.environ.get("VERIF_MAXV", "200")):
            self.viol.append({"key": key, "what": what, "replay": replay})

    def finish(self, coverage):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        cov = dict(coverage)
        cov["exhaustive"] = bool(self.exhaustive and not self.nviol)
        cov.setdefault("samples", self.samples or ["none"])
        cov["outcomes"] = dict(sorted(self.counts.items()))
        cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": "thorough" if THOROUGH else "quick",
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": self.nviol,
        }
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(path + ".tmp", "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, default=_plain)
        os.replace(path + ".tmp", path)
        for key, what in sorted(self.hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what} [{key}]")
        print(
            f"{self.pid}: {json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})}"
            f" in {ev['wall_s']} s"
        )
        if not self.nviol:
            return 0
        rp = os.path.join(VERIF, "evidence", "replay", f"{self.pid}.json")
        with open(rp, "w", encoding="utf-8") as fh:
            json.dump(self.viol, fh, indent=1, default=_plain)
        for v in self.viol[:5]:
            print(f"  {v['key']}: {v['what']}")
        print(f"VIOLATION property={self.pid} replay={rp}")
        return 1


def _plain(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return str(o)


def shuffled(items):
    """Order of work only; what is explored does not depend on the seed."""
    items = list(items)
    random.Random(SEED).shuffle(items)
    return items


def chunked(items, n):
    return [items[i::n] for i in range(n) if items[i::n]]
