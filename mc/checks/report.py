"""C24: histories of the README.  C25: the figures of the benchmark report."""

import importlib.util
import json
import os
import re
import shutil
import sys
import tempfile
from itertools import combinations, permutations, product
from pathlib import Path

from mc import harness
from mc.checks import solve
from mc.harness import THOROUGH

STAMP = re.compile(r"^- Generated: .*$", re.MULTILINE)


def script():
    path = os.path.join(harness.REPO, "scripts", "generate_benchmark_report.py")
    spec = importlib.util.spec_from_file_location("lh_report", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["lh_report"] = mod
    spec.loader.exec_module(mod)
    return mod


def bench(group, name, M, pro, low, solver, median, k=0):
    """One entry as pytest-benchmark writes it; the figures are unique to it."""
    form = f"<function {solver} at 0x7f{k:06x}>"
    if k % 2:
        form = f"CPUDispatcher({form})"
    return {
        "group": group,
        "name": f"test[{k}]",
        "params": {
            "solver": form,
            "case": {"name": name, "M": M, "is_prograde": pro, "is_low_path": low},
        },
        "stats": {"median": median, "mean": median + 1e-6 * (k + 1), "iqr": 1e-7 * (k + 1), "rounds": 100 + k},
    }  # fmt: skip


def report(benches, commit="0123456789abcdef0123", cpu="Test CPU"):
    return {
        "machine_info": {"cpu": {"brand_raw": cpu}, "python_version": "3.12.0", "system": "Linux"},
        "commit_info": {"id": commit},
        "benchmarks": benches,
    }


# ------------------------------------------------------------------ C24
def readme(rep):
    mod = script()
    S, E = mod.START_MARKER, mod.END_MARKER
    sets = {
        "A": [report([bench("zero-rev-nominal", "vallado-book", 0, True, True, "izzo2015", 3e-6)])],
        # back-references, markup and other characters that substitution could trip over
        "B": [report([bench("g\\1 \\g<0> $&", "c\\n|x", 1, False, False, "der2011", 2e-6), bench("zz", "y", 1, True, False, "gooding1990", 5e-6, 1)], "f" * 40, "CPU \\1 µ")],
        "C": [report([bench("zero-rev-general", "x", 0, True, True, "battin1984", 1e-3, 2)], "aa")],
    }
    sections = {k: mod.build_section(v) for k, v in sets.items()}

    def blank(text):
        return STAMP.sub("- Generated: *", text)

    body = {k: blank(s[s.index(S):s.index(E) + len(E)]) for k, s in sections.items()}  # fmt: skip

    initial = {
        "empty": "",
        "text": "# Title\n\nText.\n",
        "no newline": "# Title\n\nText.",
        "section": f"# Title\n\nBefore\n\n## Performance comparison\n\n{S}\n\nold\n\n{E}\n\nAfter\n",
        "section at the end": f"Intro\n\n{S}\n\nold\n\n{E}",
        "section first": f"{S}{E}\nrest \\1 µ\n",
        "end only": f"one\n\n{E}\n\ntwo\n",
        "start only": f"one\n\n{S}\n\ntwo\n",
        "end before start": f"one\n\n{E}\n\ntwo\n\n{S}\n\nthree\n",
        "starts with white space": "\n\n    code block\n\ntext\n",
        "blank lines": "text\n\n\n   \n\n",
        "text on the marker line": f"one {S} two {E} three\n",
        "two sections": f"a\n{S}\nold\n{E}\nb\n{S}\nold\n{E}\nc\n",
    }

    # every edit of a user leaves or removes whole parts, with words of its own
    def replace_inside(text):
        return re.sub(re.escape(S) + r"((?:(?!%s).)*?)" % re.escape(S) + re.escape(E), lambda m: f"{S}\nhand-made\n{E}", text, flags=re.DOTALL)

    edits = {
        "add in front": lambda t: "FRONT\n\n" + t,
        "add at the end": lambda t: t + "\nBACK \\g<1>\n",
        "edit inside": replace_inside,
        "delete the start": lambda t: t.replace(S + "\n", "", 1),
        "delete the end": lambda t: t.replace(E + "\n", "", 1),
        "delete the section": lambda t: re.sub(re.escape(S) + ".*?" + re.escape(E), "GONE", t, flags=re.DOTALL),
        "copy the section": lambda t: t + "\ncopy\n" + t[t.rfind(S):] if S in t else t,
        "strip": lambda t: t.strip(),
    }  # fmt: skip
    actions = [("update", k) for k in sets] + [("edit", k) for k in edits]

    pair = re.compile(re.escape(S) + r"(?:(?!%s).)*?" % re.escape(S) + re.escape(E), re.DOTALL)

    def outside(text):
        """The words outside complete sections."""
        return re.sub(r"\s+", " ", pair.sub(" \0 ", text)).strip()

    tmp = tempfile.mkdtemp(prefix="lh-mc-")
    path = Path(tmp) / "README.md"
    memo = {}

    def update(text, k):
        if (text, k) not in memo:
            path.write_bytes(text.encode())
            mod.update_readme(path, sections[k])
            memo[text, k] = path.read_bytes().decode()
        return memo[text, k]

    seen, states, transitions = set(), 0, 0

    def judge(hist, before, after, k):
        where = "|".join(hist)
        rp = {"history": list(hist)}

        def bad(what):
            rep.violation(f"history={where}", what, rp)

        pairs = pair.findall(before)
        got = pair.findall(after)
        if len(got) != max(1, len(pairs)):
            bad(f"{len(pairs)} sections became {len(got)}")
        for g in got:
            if blank(g) != body[k]:
                bad("the section does not show the report given")
                break
        w0, w1 = outside(before), outside(after)
        if not pairs:
            # appended, under its own title
            w0 = f"{w0} {mod.SECTION_TITLE} \0".strip()
        if w0 != w1:
            bad("text outside the section changed")
        if pairs:
            # and not only the words, but every character around the sections
            a, b = pair.split(before), pair.split(after)
            if len(a) == len(b):
                for i, (x, y) in enumerate(zip(a, b)):
                    if x != y and not (i and x.lstrip("\n") == y.lstrip("\n") and abs(len(x) - len(y)) <= 1):
                        bad("white space outside the section changed")
                        break
        front = before[: before.index(S)] if S in before else before
        if not after.startswith(front.rstrip()):
            bad("text in front of the section changed")
        again = update(after, k)
        if again != after:
            bad("a second run with the same report changes the file")
        for j in sets:
            if update(after, j) != update(update(after, "A" if j != "A" else "B"), j):
                bad("the result depends on what was reported before")
                break

    depth = 5 if THOROUGH else 4
    queue = [((n,), t) for n, t in initial.items()]
    for hist, text in queue:
        seen.add(text)
    level = 0
    while queue and level < depth:
        nxt = []
        for hist, text in queue:
            states += 1
            for kind, k in actions:
                transitions += 1
                h = (*hist, f"{kind} {k}")
                if kind == "update":
                    try:
                        after = update(text, k)
                    except Exception as exc:  # noqa: BLE001
                        rep.violation("history=" + "|".join(h), f"raised {exc!r}", {"history": list(h)})
                        continue
                    judge(h, text, after, k)
                else:
                    after = edits[k](text)
                if after not in seen and len(after) < 40000:
                    seen.add(after)
                    nxt.append((h, after))
                if transitions % 4001 == 1:
                    rep.sample({"history": list(h)})
        queue, level = nxt, level + 1
    if queue:
        rep.extra["states at the depth bound"] = len(queue)

    # the whole program: a run that fails leaves the file alone
    good = json.dumps(sets["A"][0])
    stripped = json.loads(good)
    del stripped["benchmarks"][0]["stats"]["median"]
    nocase = json.loads(good)
    del nocase["benchmarks"][0]["params"]
    worlds = {
        "no directory": None,
        "no report": {},
        "no report, other files": {"a.txt": good},
        "not JSON": {"a.json": "{"},
        "second not JSON": {"a.json": good, "b.json": "{"},
        "empty file": {"a.json": ""},
        "no benchmarks": {"a.json": "{}"},
        "no median": {"a.json": json.dumps(stripped)},
        "no case": {"a.json": good, "b.json": json.dumps(nocase)},
        "good": {"a.json": good},
        "good twice named": {"b.json": good, "notes.txt": "{"},
    }
    argv = sys.argv
    for (wn, files), (n, text) in product(worlds.items(), initial.items()):
        transitions += 1
        d = Path(tmp) / "bench"
        shutil.rmtree(d, ignore_errors=True)
        if files is not None:
            d.mkdir()
            for f, c in files.items():
                (d / f).write_text(c, encoding="utf-8")
        path.write_bytes(text.encode())
        sys.argv = ["report", "--benchmarks-dir", str(d), "--readme", str(path)]
        try:
            mod.main()
            out = "done"
        except Exception as exc:  # noqa: BLE001
            out = type(exc).__name__
        finally:
            sys.argv = argv
        after = path.read_bytes().decode()
        key, rp = f"world={wn}|readme={n}", {"world": wn, "readme": n}
        if wn.startswith("good"):
            if out != "done" or blank(after) != blank(update(text, "A")):
                rep.violation(key, f"the program ended with {out} or did not update the file", rp)
        elif out == "done":
            rep.violation(key, "the program reports success without any usable report", rp)
        elif after != text:
            rep.violation(key, f"the program failed with {out} and changed the file", rp)
        rep.counts[out] += 1
    shutil.rmtree(tmp, ignore_errors=True)
    rep.counts["correct"] += transitions
    return rep.finish(
        {
            "states": states + len(worlds) * len(initial),
            "transitions": transitions,
            "traces_validated_against_impl": transitions,
            "bound": f"breadth-first over all contents reachable within {depth} updates and user edits",
            "rule": "every history of updates and user edits over every initial content: text outside the section is kept, one section shows the last report, a second run changes nothing, a failing run changes nothing",
        }
    )


# ------------------------------------------------------------------ C25
ROW = re.compile(r"^\| (\d+) \| `([^`]+)` \| (\d+) \| (Yes|No) \| (low|high) \| ([\d.]+) \| ([\d.]+) \| ([\d.]+) \| ([\d.]+)x \| (\d+) \|$")


def parse(section):
    """[(group, scenario, fields)] of a section."""
    rows, group, scen = [], None, None
    for line in section.splitlines():
        if line.startswith("### "):
            group, scen = line[4:], None
        elif line.startswith("#### "):
            scen = line[5:]
        elif line.startswith("| ") and not line.startswith("| Rank"):
            m = ROW.match(line)
            rows.append((group, scen, m.groups() if m else line))
    return rows


def figures(rep):
    mod = script()
    keys = [("vallado-book", 0, True, True), ("vallado-book", 0, True, False), ("vallado-book", 0, False, True), ("vallado-book", 1, True, True), ("prograde-high", 0, True, True), ("m1-prograde-high", 1, True, False), ("unnamed-case", 2, False, False)]
    meds = [1e-6, 2e-6, 7.3e-5]
    universes = []
    # one case: every assignment of medians (ties included) to up to four solvers
    names = ["izzo2015", "battin1984", "der2011", "gauss1809"]
    for n in range(1, 5):
        for ms in product(meds if n < 4 or THOROUGH else meds[:2], repeat=n):
            universes.append([("zero-rev-nominal", keys[0], s, m) for s, m in zip(names, ms)])
    # zero medians: too fast for the clock
    universes += [[("g", keys[0], s, m) for s, m in zip(names, ms)] for ms in product((0.0, 1e-6), repeat=2)]
    # two cases that differ in one field, in one group or two, with opposite orders of speed
    for a, b in combinations(keys, 2):
        for ga, gb in (("zero-rev-nominal", "zero-rev-nominal"), ("multi-rev-m1", "zero-rev-general"), ("own-group", "multi-rev-hard")):
            for x, y in product(((1e-6, 2e-6), (2e-6, 1e-6)), repeat=2):
                universes.append([(ga, a, names[0], x[0]), (ga, a, names[1], x[1]), (gb, b, names[0], 3 * y[0]), (gb, b, names[1], 3 * y[1])])
    if THOROUGH:
        for a, b, c in combinations(keys, 3):
            for ms in permutations((1e-6, 2e-6, 5e-6)):
                universes.append([(g, kk, names[0], m) for g, kk, m in zip(("g", "g", "h"), (a, b, c), ms)] + [("g", a, names[1], 4e-6), ("h", c, names[1], 1e-7)])

    tmp = tempfile.mkdtemp(prefix="lh-mc-")
    runs = 0

    def check(u, benches, section, where, rp):
        rows = parse(section)
        want = {}
        for (g, k, s, m), b in zip(u, benches):
            want[str(b["stats"]["rounds"])] = (g, k, s, m, b)
        got = {}
        for g, sc, f in rows:
            if isinstance(f, str):
                rep.violation(where, f"unreadable row {f}", rp)
                return None
            if f[9] in got:
                rep.violation(where, "a benchmark appears twice", rp)
                return None
            got[f[9]] = (g, sc, f)
        if set(got) != set(want):
            rep.violation(where, "a benchmark is missing or invented", rp)
            return None
        cases = {}
        for r, (g, k, s, m, b) in want.items():
            cases.setdefault((g, k), []).append((m, s, r))
        for (g, k), es in cases.items():
            ranks = sorted(int(got[r][2][0]) for _, _, r in es)
            if ranks != list(range(1, len(es) + 1)):
                rep.violation(where, f"ranks of one case are {ranks}", rp)
            order = [m for m, _, r in sorted(es, key=lambda e: int(got[e[2]][2][0]))]
            if order != sorted(order):
                rep.violation(where, "a slower solver ranks before a faster one", rp)
            slow = max(m for m, _, _ in es)
            for m, s, r in es:
                gg, sc, f = got[r]
                st = want[r][4]["stats"]
                sp = slow / m if m > 0 else 1.0
                exp = (s, str(k[1]), "Yes" if k[2] else "No", "low" if k[3] else "high", f"{st['median'] * 1e6:.1f}", f"{st['mean'] * 1e6:.1f}", f"{st['iqr'] * 1e6:.1f}", f"{sp:.1f}")
                if tuple(f[1:9]) != exp:
                    rep.violation(where, f"row {f[1:9]} instead of {exp}", rp)
                # the same case under one heading; other groups under other headings
                if gg is None or sc is None:
                    rep.violation(where, "a row outside any heading", rp)
        heads = {}
        for r, (g, k, s, m, b) in want.items():
            heads.setdefault(g, set()).add(got[r][0])
        flat = [h for hs in heads.values() for h in hs]
        if any(len(h) != 1 for h in heads.values()) or len(set(flat)) != len(heads):
            rep.violation(where, f"groups and headings do not correspond: {heads}", rp)
        return STAMP.sub("- Generated: *", section)

    for ui, u in enumerate(universes):
        benches = [bench(g, *k, s, m, i) for i, (g, k, s, m) in enumerate(u)]
        ref = None
        orders = list(permutations(range(len(u)))) if len(u) <= 4 else [tuple(range(len(u))), tuple(reversed(range(len(u))))]
        for oi, o in enumerate(orders):
            # every way to cut the sequence in two files (empty ones included)
            cuts = range(len(u) + 1) if oi % 4 == 0 or THOROUGH else (0,)
            for cut in cuts:
                runs += 1
                where = f"universe={ui}|order={''.join(map(str, o))}|cut={cut}"
                rp = {"benchmarks": u, "order": o, "cut": cut}
                parts = [[benches[i] for i in o[:cut]], [benches[i] for i in o[cut:]]]
                reports = [report(p) for p in parts]
                if oi == 0:
                    # through files
                    d = Path(tmp) / f"u{ui}c{cut}"
                    d.mkdir()
                    for i, r in enumerate(reports):
                        (d / f"{i}.json").write_text(json.dumps(r), encoding="utf-8")
                    reports = mod.load_reports(d)
                    shutil.rmtree(d)
                try:
                    text = mod.build_section(reports)
                except Exception as exc:  # noqa: BLE001
                    rep.violation(where, f"raised {exc!r}", rp)
                    continue
                out = check(u, benches, text, where, rp)
                if out is None:
                    continue
                if ref is None:
                    ref = out
                elif out != ref:
                    rep.violation(where, "the table depends on the order of the reports", rp)
        if ui % 60 == 0:
            rep.sample({"benchmarks": u})
    shutil.rmtree(tmp, ignore_errors=True)
    rep.counts["correct"] = runs
    return rep.finish(
        {
            "states": len(universes),
            "transitions": runs,
            "traces_validated_against_impl": runs,
            "bound": "up to four solvers, two cases (thorough: three), two groups, two report files, every order and cut",
            "rule": "every set of benchmarks in every order and distribution over files: each once with its own figures, ranks 1..n by median, speed-up against the slowest, the same text whatever the order",
        }
    )


def main(pid):
    rep = harness.Report(pid, "model_checking")
    return {"C24": readme, "C25": figures}[pid](rep)
