#!/usr/bin/env python3
"""Runs the log analyser on generated log directories and compares its reports with an own count.

drive.py C23 [--tier T] [--scale X] [--replay FILE]
"""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

PROP = "C23"
ROOT = os.environ.get("MT_VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXE = os.environ["ANA_EXE"]
TIMEOUT = 60

# Event classes in the order the first match decides; a class is recognised by its name in the message.
CLASSES = ["COVERAGE_COLLAPSE", "FAR_LANDING_RETRY", "FAR_LANDING", "BLINK_LIMIT", "INSERT_ABORT", "INTERNODE_DESCENT",
           "SLOW_LEAF_LOCK", "SLOW_LOCK_YIELD", "SLOW_LOCK", "SLOW_PARENT_LOCK", "SLOW_PROPAGATE", "SLOW_SPLIT", "SLOW_STABLE",
           "INTERNODE_SPLIT: created sibling", "INTERNODE_SPLIT: updated leaf children",
           "INTERNODE_SPLIT_INTO: updated internode children", "INTERNODE_SPLIT_INSTALL", "INTERNODE_SPLIT_RECURSIVE", "INTERNODE_SPLIT_UNLOCK"]
SLOW = [c for c in CLASSES if c.startswith("SLOW")]
STR = ["message", "ikey", "leaf_bound", "leaf_ptr", "expected_upper", "expected_lower", "k0", "k_last", "inode_ptr", "split_ikey",
       "sibling_ptr", "popup_key", "grandparent_ptr", "sibling_lower", "sibling_upper", "new_parent"]
NUM = ["retry", "coverage_gap", "target_gap", "gap", "advance_count", "child_idx", "propagate_elapsed_us", "total_elapsed_us",
       "sibling_nkeys", "updated_children", "updated_internode_children", "insert_pos", "gp_nkeys", "grandparent_nkeys", "height"]
BOOL = ["is_layer_root", "sibling_is_split_locked", "result_ok", "grandparent_was_root"]


# ---------------------------------------------------------------- what a report must say

def event(line):
    """The fields and thread of a well-formed event line, or None."""
    try:
        e = json.loads(line)
    except ValueError:
        return None
    if not isinstance(e, dict) or not isinstance(e.get("fields", {}), dict):
        return None
    t = e.get("threadId")
    if t is not None and not isinstance(t, str):
        return None
    f = e.get("fields", {})
    for names, ok in ((STR, lambda v: isinstance(v, str)),
                      (NUM, lambda v: type(v) is int and 0 <= v < 1 << 64),
                      (BOOL, lambda v: isinstance(v, bool))):
        for n in names:
            if f.get(n) is not None and not ok(f[n]):
                return None
    return f, t if t is not None else "unknown"


def hexval(s):
    if s is not None and re.fullmatch(r"\+?[0-9a-fA-F]+", s) and int(s, 16) < 1 << 64:
        return int(s, 16)
    return None


def count(lines):
    """Own count of one log: lines are (bytes, repetitions)."""
    a = dict(lines=0, n={c: 0 for c in CLASSES}, retries={}, keys={}, bounds={}, lo=None, hi=None, zero=0, maxprop=0, splits=[],
             locked=0, failed=0, roots=0, layers=0, routes={}, idx={}, firsts={})
    for raw, reps in lines:
        if not isinstance(raw, bytes):
            raw = raw.encode()
        try:
            line = raw.decode()
        except UnicodeDecodeError:
            continue
        a["lines"] += reps
        ev = event(line)
        if ev is None or ev[0].get("message") is None:
            continue
        f, thread = ev
        cls = next((c for c in CLASSES if c in f["message"]), None)
        key = f.get("ikey")
        if cls:
            a["n"][cls] += reps
        if cls in CLASSES[:5]:
            if f.get("retry") is not None:
                d = a["retries"].setdefault(cls, {})
                d[f["retry"]] = d.get(f["retry"], 0) + reps
            if key is not None:
                k = a["keys"].setdefault(key, dict(cc=0, fl=0, ab=0, maxr=0, bounds={}, retries={}, threads={}))
                k["cc"] += reps * (cls == "COVERAGE_COLLAPSE")
                k["fl"] += reps * (cls in ("FAR_LANDING_RETRY", "FAR_LANDING"))
                k["ab"] += reps * (cls == "INSERT_ABORT")
                if cls in CLASSES[:2] and f.get("retry") is not None:
                    k["maxr"] = max(k["maxr"], f["retry"])
                    k["retries"][f["retry"]] = k["retries"].get(f["retry"], 0) + reps
                if cls in CLASSES[:3]:
                    if f.get("leaf_bound") is not None:
                        k["bounds"][f["leaf_bound"]] = k["bounds"].get(f["leaf_bound"], 0) + reps
                    k["threads"][thread] = k["threads"].get(thread, 0) + reps
        if cls == "INTERNODE_DESCENT" and f.get("inode_ptr") is not None:
            p = f["inode_ptr"]
            a["routes"][p] = a["routes"].get(p, 0) + reps
            if f.get("child_idx") is not None:
                d = a["idx"].setdefault(p, {})
                d[f["child_idx"]] = d.get(f["child_idx"], 0) + reps
            if f.get("k0") is not None:
                a["firsts"].setdefault(p, (f["k0"], f.get("k_last")))
        if cls == "SLOW_SPLIT":
            p = f.get("propagate_elapsed_us") or 0
            a["zero"] += reps * (p == 0)
            a["maxprop"] = max(a["maxprop"], p)
            v = hexval(f.get("split_ikey"))
            if v is not None:
                for _ in range(min(reps, 200 - len(a["splits"]))):
                    a["splits"].append((f["split_ikey"], v, p, bool(f.get("is_layer_root"))))
        if cls == "INTERNODE_SPLIT: created sibling":
            a["locked"] += reps * (f.get("sibling_is_split_locked") is True)
        if cls == "INTERNODE_SPLIT_UNLOCK":
            a["failed"] += reps * (f.get("result_ok") is False)
            a["roots"] += reps * (f.get("new_parent") == "NEW_ROOT")
            a["layers"] += reps * (f.get("new_parent") == "LAYER_ROOT")
        if f.get("leaf_bound") is not None:
            a["bounds"][f["leaf_bound"]] = a["bounds"].get(f["leaf_bound"], 0) + reps
            v = hexval(key)
            if v is not None:
                a["lo"] = v if a["lo"] is None else min(a["lo"], v)
                a["hi"] = v if a["hi"] is None else max(a["hi"], v)
    total = sum(a["bounds"].values())
    a["max"] = max(a["bounds"].values(), default=0)
    a["cands"] = [b for b, c in a["bounds"].items() if c == a["max"]] or [None]
    a["ratio"] = a["max"] / total if total else 0.0
    a["sev"] = 2 if a["ratio"] > 0.5 else 1 if a["ratio"] > 0.3 else 0
    return a


def sticky(k):
    total = sum(k["bounds"].values())
    return total >= 10 and max(k["bounds"].values()) / total > 0.9


ICON, WORD = ["🟢", "🟡", "🔴"], ["🟢 NORMAL", "🟡 ELEVATED", "🔴 CRITICAL"]


class Bad(Exception):
    pass


def need(ok, what, want=None, got=None):
    if not ok:
        raise Bad(f"{what}: expected {want!r}, found {got!r}" if want is not None or got is not None else what)


def same(what, want, got):
    need(want == got, what, want, got)


def table(part, head):
    """Rows of the table whose header's first cell is `head`."""
    rows, on = [], False
    for l in part.split("\n"):
        cells = [c.strip() for c in l.strip().strip("|").split("|")] if l.startswith("|") else None
        if cells is None:
            if on:
                break
            continue
        if not on:
            on = cells[0] == head
        elif not set(l) <= set("|-: "):
            rows.append(cells)
    return rows if on else None


def number(part, pat, what):
    m = re.search(pat, part)
    need(m, f"{what} is missing")
    return m.group(1)


def top(what, rows, want, n, weight):
    """`rows` are the n heaviest of `want` (by row text), heaviest first, ties in any order."""
    same(f"number of {what}", min(n, len(want)), len(rows))
    need(len(set(map(tuple, rows))) == len(rows), f"{what} repeat")
    for r in rows:
        need(tuple(r) in want, f"{what}: unexpected row {r}; expected among {sorted(want)[:12]}")
    got = [want[tuple(r)] for r in rows]
    same(f"order of {what}", sorted(want.values(), reverse=True)[: len(rows)], got)


def short(lb, a, b):
    """The shortened bound: how it is cut when it does not have the usual 16 hexadecimal digits is open."""
    if lb is None:
        return ["N/A"]
    if re.fullmatch(r"[\x21-\x7e]{16}", lb):
        return [lb[a:b]]
    return None


def check_md(md, runs):
    n = len(runs)
    crit = [r for r in runs if r["sev"] == 2]
    elev = [r for r in runs if r["sev"] == 1]
    abo = [r for r in runs if r["n"]["INSERT_ABORT"]]
    cc, fl, ab = (sum(r["n"][c] for r in runs) for c in ("COVERAGE_COLLAPSE", "FAR_LANDING_RETRY", "INSERT_ABORT"))
    parts = {p.split("\n")[0].strip(): p for p in re.split(r"^## ", md, flags=re.M)[1:]}
    ex = dict((r[0], r[1]) for r in table(parts["Executive Summary"], "Metric"))
    same("runs", str(n), ex["Total Runs"])
    same("critical runs", f"{len(crit)} ({100.0 * len(crit) / n:.1f}%)", ex["Critical Runs"])
    same("elevated runs", f"{len(elev)} ({100.0 * len(elev) / n:.1f}%)", ex["Elevated Runs"])
    same("runs with aborts", str(len(abo)), ex["Runs with Aborts"])
    same("total coverage collapse", str(cc), ex["Total Coverage Collapse"])
    same("total far landing", str(fl), ex["Total Far Landing"])
    same("total insert aborts", str(ab), ex["Total Insert Aborts"])
    if not crit and not abo:
        need("without critical failures" in parts["Executive Summary"], "status of harmless runs")
    else:
        same("critical failures", str(len(crit) + len(abo)), number(parts["Executive Summary"], r"(\d+) critical failures", "the number of critical failures"))
    rows, stuck = table(parts["Per-Run Summary"], "Run"), table(parts["Stuck Leaf Bound Analysis"], "Run")
    same("rows per run", n, len(rows))
    same("stuck rows per run", n, len(stuck))
    problem = [r for r in runs if r["sev"] or r["n"]["INSERT_ABORT"]]
    details = re.split(r"^### ", parts.get("Problem Run Details", ""), flags=re.M)[1:]
    same("runs with details", [r["name"] for r in problem], [d.split("\n")[0].split()[0] if d.split("\n")[0].split() else "" for d in details])
    details = dict(zip([r["name"] for r in problem], details))
    for r, row, srow in zip(runs, rows, stuck):
        same("run, lines and events", [r["name"], str(r["lines"])] + [str(r["n"][c]) for c in ("COVERAGE_COLLAPSE", "FAR_LANDING_RETRY", "INSERT_ABORT")], row[:5])
        same(f"ratio and severity of {r['name']}", [f"{r['ratio'] * 100.0:.1f}%", ICON[r["sev"]]], row[6:8])
        same(f"stuck count of {r['name']}", [r["name"], str(r["max"]), f"{r['ratio'] * 100.0:.1f}%", f"`{r['lo'] or 0:016x}`", f"`{r['hi'] or 0:016x}`"], [srow[0]] + srow[2:6])
        errs = []
        for lb in r["cands"]:
            try:
                s = short(lb, 4, 16)
                need(s is None or row[5] in [f"`{x}`" for x in s], "stuck leaf bound", s, row[5])
                leaf = hexval(lb) or 0
                same("stuck leaf bound in full", f"`{leaf:016x}`", srow[1])
                same("gap", str(max(0, (r["hi"] or 0) - leaf)), srow[6])
                if r["name"] in details:
                    check_detail(details[r["name"]], r, lb)
                break
            except Bad as e:
                errs.append(str(e))
        else:
            raise Bad(f"run {r['name']}: " + "; ".join(errs[:3]))
    cross = {}
    for r in runs:
        for k, s in r["keys"].items():
            if s["cc"] > 10 or s["fl"] > 10:
                cross.setdefault(k, []).append(r["name"])
    multi = {k: v for k, v in cross.items() if len(v) > 1}
    part = parts["Cross-Run Analysis"]
    if not multi:
        need(table(part, "Key") is None, "keys of several runs where there are none")
    else:
        top("keys of several runs", table(part, "Key") or [], {(f"`{k}`", str(len(v)), ", ".join(v)): len(v) for k, v in multi.items()}, 15, len)
    d = parts["Diagnosis"]
    same("critical diagnosis", bool(crit), "Critical" in d)
    same("elevated diagnosis", bool(elev), "Elevated" in d)
    if crit:
        same("runs in the critical diagnosis", str(len(crit)), number(d, r"\*\*(\d+) run\(s\)\*\* have >50%", "the critical diagnosis"))
    if elev:
        same("runs in the elevated diagnosis", str(len(elev)), number(d, r"\*\*(\d+) run\(s\)\*\* have 30", "the elevated diagnosis"))
    if ab:
        same("aborts in the diagnosis", str(ab), number(d, r"\*\*(\d+) insert\(s\)\*\*", "the abort diagnosis"))


def near(r, lb):
    v = hexval(lb)
    return [s for s in r["splits"] if v is None or abs(s[1] - v) < 200_000]


def check_detail(d, r, lb):
    same("severity in the details", WORD[r["sev"]], " ".join(d.split("\n")[0].split()[1:]))
    for label, v in (("Total log lines", r["lines"]), ("Coverage Collapse", r["n"]["COVERAGE_COLLAPSE"]),
                     ("Far Landing", r["n"]["FAR_LANDING_RETRY"]), ("Insert Aborts", r["n"]["INSERT_ABORT"])):
        same(label, str(v), number(d, rf"- {label}: (\d+)\n", label))
    if r["sev"]:
        leaf = hexval(lb) or 0
        need(f"Stuck leaf bound: `{lb}` ({leaf})\n" in d, "stuck leaf bound in the details", lb, None)
        need(f"Events on this leaf: {r['max']} ({r['ratio'] * 100.0:.1f}%)\n" in d, "events on the stuck leaf")
        if r["lo"] is not None:
            need(f"range: {r['lo']} to {r['hi']}\n" in d, "range of stuck keys", (r["lo"], r["hi"]))
            need(f"Gap from leaf: {max(0, r['lo'] - leaf)} to {max(0, r['hi'] - leaf)} " in d, "gap of stuck keys")
    n = r["n"]["SLOW_SPLIT"]
    if n:
        same("splits", str(n), number(d, r"Total splits: (\d+)\n", "the number of splits"))
        need(f"Zero propagation: {r['zero']} ({100.0 * r['zero'] / n:.1f}%)\n" in d, "splits without propagation", r["zero"])
        same("splits with propagation", str(n - r["zero"]), number(d, r"Non-zero propagation: (\d+)\n", "splits with propagation"))
        if r["maxprop"]:
            same("longest propagation", str(r["maxprop"]), number(d, r"Max propagation time: (\d+)", "the longest propagation"))
        rows = table(d, "Split IKey") or []
        want = [[f"`{k}`", str(v), f"{p} {'✓' if p else '✗'}", "Yes" if l else "No"] for k, v, p, l in near(r, lb)[:10]]
        same("splits near the stuck leaf", want, rows)
    keys = {k: s for k, s in r["keys"].items() if s["cc"] > 100 or s["fl"] > 100}
    rows = table(d, "IKey") or []
    top("stuck keys", rows, {(f"`{k}`", str(s["cc"]), str(s["fl"]), str(s["ab"]), str(s["maxr"]), "🔴 Sticky" if sticky(s) else "🟡 Churn"): s["cc"] + s["fl"] for k, s in keys.items()}, 10, None)


def check_out(out, runs):
    n = len(runs)
    secs = re.split(r"^=+\n(.*)\n=+$", out, flags=re.M)
    secs = {secs[i]: secs[i + 1] for i in range(1, len(secs) - 1, 2)}
    slow = lambda r: sum(r["n"][c] for c in SLOW)
    body = [l.split() for l in secs["PER-RUN SUMMARY"].split("\n") if l and not l.startswith("-") and not l.startswith("Run ")]
    same("summary rows", n, len(body))
    body2 = [l.split() for l in secs["STUCK LEAF BOUND ANALYSIS"].split("\n") if l and not l.startswith("-") and not l.startswith("Run ")]
    same("stuck rows", n, len(body2))
    for r, row, row2 in zip(runs, body, body2):
        same("summary row", [r["name"], str(r["lines"])] + [str(r["n"][c]) for c in ("COVERAGE_COLLAPSE", "FAR_LANDING_RETRY", "INSERT_ABORT")] + [str(slow(r))], row[:6])
        same("summary severity", [f"{r['ratio'] * 100.0:.1f}%"] + WORD[r["sev"]].split(), row[-3:])
        same("stuck row", [r["name"], str(r["max"]), f"{r['ratio'] * 100.0:.1f}%", f"{r['lo'] or 0:x}", f"{r['hi'] or 0:x}"], [row2[0]] + row2[-5:-1])
        need(any((short(lb, 0, 16) is None or short(lb, 0, 16) == [row2[1]] == [row[6]]) and row2[-1] == str(max(0, (r["hi"] or 0) - (hexval(lb) or 0))) for lb in r["cands"]),
             f"stuck leaf of {r['name']}", r["cands"][:4], row2)
    problem = [r for r in runs if r["n"]["BLINK_LIMIT"] or r["n"]["COVERAGE_COLLAPSE"] > 1000 or r["n"]["FAR_LANDING_RETRY"] > 10000 or r["n"]["INSERT_ABORT"] or r["sev"]]
    det = next((s for t, s in secs.items() if t.startswith("PROBLEM RUNS DETAIL")), None)
    same("problem runs are detailed", bool(problem), det is not None)
    if det is not None:
        need(f"PROBLEM RUNS DETAIL ({len(problem)} of {n} runs)" in secs, "number of problem runs", len(problem))
        blocks = re.split(r"^>>> (.*) <<<$", det, flags=re.M)
        same("detailed runs", [r["name"] for r in problem], blocks[1::2])
        for r, b in zip(problem, blocks[2::2]):
            errs = []
            for lb in r["cands"]:
                try:
                    check_block(b, r, lb)
                    break
                except Bad as e:
                    errs.append(str(e))
            else:
                raise Bad(f"details of {r['name']}: " + "; ".join(errs[:3]))
    f = secs["FINAL SUMMARY"]
    clean = sum(r["n"]["COVERAGE_COLLAPSE"] < 100 and r["n"]["FAR_LANDING_RETRY"] < 1000 and not r["n"]["BLINK_LIMIT"] and not r["n"]["INSERT_ABORT"] for r in runs)
    st = sum(sticky(k) for r in runs for k in r["keys"].values())
    for label, v in (("Total runs", n), ("Clean runs", f"{clean} ({100.0 * clean / n:.1f}%)"), ("Problem runs", f"{n - clean} ({100.0 * (n - clean) / n:.1f}%)"),
                     ("Total coverage_collapse", sum(r["n"]["COVERAGE_COLLAPSE"] for r in runs)),
                     ("Total far_landing_retry", sum(r["n"]["FAR_LANDING_RETRY"] for r in runs)),
                     ("Total blink_limit", sum(r["n"]["BLINK_LIMIT"] for r in runs)),
                     ("Total insert_abort", sum(r["n"]["INSERT_ABORT"] for r in runs)), ("Total sticky_leaf keys", st)):
        same(label, str(v), number(f, rf"  {label}: (.*)\n", label))


def check_block(b, r, lb):
    same("lines in the details", str(r["lines"]), number(b, r"Total log lines: (\d+)\n", "lines"))
    for c in ("COVERAGE_COLLAPSE", "FAR_LANDING_RETRY"):
        if r["n"][c]:
            part = number(b, rf"(?s)\n  {c}: (\d+\n.*?)(?:\n\n|\Z)", c)
            same(c, str(r["n"][c]), part.split("\n")[0])
            got = {int(x): int(y) for x, y in re.findall(r"retry (\d+): (\d+)\n", part + "\n")}
            same(f"retries of {c}", r["retries"].get(c, {}), got)
        else:
            need(f"\n  {c}: " not in b, f"{c} where there is none")
    if r["n"]["INSERT_ABORT"]:
        same("aborts", str(r["n"]["INSERT_ABORT"]), number(b, r"INSERT_ABORT: (\d+) ", "aborts"))
    if r["sev"]:
        leaf = hexval(lb) or 0
        need(f"Stuck leaf bound: {lb} ({leaf} decimal)\n" in b, "stuck leaf bound", lb)
        need(f"Events on this leaf: {r['max']} ({r['ratio'] * 100.0:.1f}% " in b, "events on the stuck leaf")
        if r["lo"] is not None:
            need(f"Stuck ikey range: {r['lo']} to {r['hi']}\n" in b, "range of stuck keys", (r["lo"], r["hi"]))
    n = r["n"]["SLOW_SPLIT"]
    if n:
        need(f"Total splits: {n} (zero_prop: {r['zero']}, nonzero_prop: {n - r['zero']})\n" in b, "splits", n)
        nr = near(r, lb)
        got = re.findall(r"split_ikey=(.*) \((\d+)\) prop=(\d+)µs layer_root=(true|false)\n", b)
        same("splits near the stuck leaf", [(k, str(v), str(p), "true" if l else "false") for k, v, p, l in nr[:10]], got)
        if nr:
            same("number of splits near the stuck leaf", str(len(nr)), number(b, r"Splits near stuck leaf \((\d+) found\)", "near splits"))
    m = r["n"]["INTERNODE_SPLIT: created sibling"]
    if m:
        need(f"Siblings created: {m} (split-locked: {r['locked']})\n" in b, "siblings", (m, r["locked"]))
        need(f"leaf_children={r['n'][CLASSES[14]]}, internode_children={r['n'][CLASSES[15]]}\n" in b, "parent updates")
        need(f"grandparent={r['n'][CLASSES[16]]}, new_root={r['roots']}, layer_root={r['layers']}\n" in b, "installations")
        need(f"Recursive splits: {r['n'][CLASSES[17]]}\n" in b, "recursive splits")
        need(f"Unlocks: {r['n'][CLASSES[18]]} (failures: {r['failed']})\n" in b, "unlocks")
    slow = sum(r["n"][c] for c in SLOW)
    if slow:
        need(f"SLOW EVENTS: {slow} total\n" in b, "slow events", slow)
        for c in SLOW:
            got = re.search(rf"\n    {c}: (\d+)\n", b)
            same(c, r["n"][c], int(got.group(1)) if got else 0)
    keys = {k: s for k, s in r["keys"].items() if s["cc"] > 10 or s["fl"] > 10}
    got = re.findall(r"\n    (.*) -> (\d+) events, (\d+) ops \(CC:(\d+), FL:(\d+), aborts:(\d+), max_retry:(\d+)\)\n      (STUCK on leaf_bound .* \([\d.]+% of events\)|\d+ different leaf_bounds)", b)
    for st in (True, False):
        want = {}
        for k, s in keys.items():
            if sticky(s) != st:
                continue
            ops = s["retries"].get(1, max(s["retries"].values(), default=0))
            if st:
                l, c = max(s["bounds"].items(), key=lambda x: x[1])
                tail = f"STUCK on leaf_bound {l} ({c / sum(s['bounds'].values()) * 100.0:.1f}% of events)"
            else:
                tail = f"{len(s['bounds'])} different leaf_bounds"
            want[(k, str(s["cc"] + s["fl"]), str(ops), str(s["cc"]), str(s["fl"]), str(s["ab"]), str(s["maxr"]), tail)] = s["cc"] + s["fl"]
        top("sticky keys" if st else "churn keys", [g for g in got if g[7].startswith("STUCK") == st], want, 5, None)
    th = {}
    for s in r["keys"].values():
        for t, c in s["threads"].items():
            th[t] = th.get(t, 0) + c
    if len(th) > 1:
        part = number(b, r"(?s)THREAD DISTRIBUTION \(top 5\):\n(.*?)(?:\n\n|\Z)", "thread distribution")
        rows = re.findall(r"    (.*): (\d+) events", part)
        top("threads", rows, {(t, str(c)): c for t, c in th.items()}, 5, None)
    hot = {p: c for p, c in r["routes"].items() if c > 100}
    rows = re.findall(r"\n    (.*) -> (\d+) visits,", b)
    top("hot internodes", rows, {(p, str(c)): c for p, c in hot.items()}, 5, None)
    if hot:
        shown = re.findall(r"\n    (.*) -> (\d+) visits, k0=(.*), k_last=(.*)\n      child_idx:(.*)(?=\n)", b)
        same("child indices and keys of hot internodes", len(rows), len(shown))
        for p, _, k0, kl, ix in shown:
            top(f"children of {p}", re.findall(r"\[(\d+)\]=(\d+)", ix), {(str(i), str(c)): c for i, c in r["idx"].get(p, {}).items()}, 5, None)
            for text, want in zip((k0, kl), r["firsts"].get(p, (None, 0))):
                if want is None or isinstance(want, str) and re.fullmatch(r"[\w]*", want, re.A):
                    same(f"keys of {p}", "None" if want is None else f'Some("{want}")', text)


# ---------------------------------------------------------------- logs

def h16(v):
    return f"{v & (1 << 64) - 1:016x}"


REPS = [1] * 10 + [2, 2, 3, 5, 9, 10, 11, 20, 29, 30, 50, 51, 99, 100, 101, 110, 150, 199, 200, 201]


def at_threshold(r):
    """Logs whose totals lie exactly at or next to a number that decides something."""
    files = {}
    for i in range(r.randint(1, 3)):
        cls = r.choice(["COVERAGE_COLLAPSE", "FAR_LANDING_RETRY", "FAR_LANDING", "BLINK_LIMIT", "INSERT_ABORT", "INTERNODE_DESCENT", "SLOW_SPLIT"])
        n = r.choice([9, 10, 11, 99, 100, 101, 199, 200, 201, 999, 1000, 1001] + [10_000, 10_001] * (r.random() < 0.2))
        one_key = r.random() < 0.5
        e = lambda k, **f: json.dumps(dict(fields=dict(dict(message=cls, ikey=h16(k), inode_ptr="0x1", split_ikey=h16(k), retry=1), **f), threadId="ThreadId(1)")).encode()
        if one_key:
            # How often the heaviest bound occurs: around 30, 50 and 90 in a hundred.
            m = max(1, min(n, n * r.choice([3, 5, 9]) // 10 + r.choice([-1, 0, 0, 1])))
            lines = [[e(7, leaf_bound=h16(5)), m]]
            left, j = n - m, 0
            while left > 0:
                k = min(left, max(1, m - r.choice([0, 1, 1, m // 2])))
                lines.append([e(7, leaf_bound=h16(100 + j)), k])
                left, j = left - k, j + 1
        else:
            lines = []
            left = n
            while left > 0:
                k = min(left, r.choice([9, 10, 11, 50, 100, 101]))
                lines.append([e(r.randint(1, 40)), k])
                left -= k
        r.shuffle(lines)
        files[f"t{i}.json"] = lines
    return dict(files=files, crlf=False, tail=True, order=r.getrandbits(30))


def generate(r):
    """Files of a log directory: name -> list of (line, repetitions), or None for a directory."""
    if r.random() < 0.3:
        return at_threshold(r)
    base = r.choice([0, 1000, 1 << 20, 1 << 40, (1 << 64) - 300_000])
    keyv = [base + r.randint(0, 400_000) for _ in range(r.randint(1, 14))]
    keys = [h16(v) for v in keyv]
    bounds = [h16(base + r.randint(0, 400_000)) for _ in range(r.randint(1, 6))]
    odd = r.random() < 0.35
    if odd:
        bounds += r.sample(["", "ff", "00000000000001", "000000000000abc", "0x00000000000001", "nothex", "+ff", "é" * 7, "aaaé" * 5, "x" * 40, "0" * 40, "123456789012345"], r.randint(1, 3))
        keys += r.sample(["", "zz", "7", "+7", "0x7", "ü", "f" * 16, "f" * 17, "10"], r.randint(1, 3))
    threads = [f"ThreadId({i})" for i in range(1, r.randint(2, 9))]
    nodes = [f"0x{r.randint(1, 1 << 40):x}" for _ in range(r.randint(1, 7))]
    files = {}
    for i in range(r.choice([1, 1, 2, 3, 5, 8])):
        lines = []
        focus = r.choice([None, None, "COVERAGE_COLLAPSE", "FAR_LANDING_RETRY", "SLOW_SPLIT", "INTERNODE_SPLIT", "INTERNODE_DESCENT"])
        for _ in range(r.choice([0, 1, 3, 8, 20, 60])):
            cls = r.choice(CLASSES)
            if focus and r.random() < 0.6:
                cls = r.choice([c for c in CLASSES if c.startswith(focus)])
            if r.random() < 0.25:
                cls = r.choice(["COVERAGE_COLLAPSE", "FAR_LANDING_RETRY", "FAR_LANDING"])
            msg = r.choice(["", "", "note: ", r.choice(CLASSES) + " then " if r.random() < 0.3 else ""]) + cls + r.choice(["", ": took long", " " + r.choice(CLASSES) if r.random() < 0.3 else " x"])
            if r.random() < 0.05:
                msg = r.choice(["started", "SLOW_", "FAR_LAND", "coverage_collapse", ""])
            f = dict(message=msg)
            if r.random() < 0.85:
                f["ikey"] = r.choice(keys)
            if r.random() < 0.7:
                f["leaf_bound"] = bounds[0] if r.random() < 0.4 else r.choice(bounds)
            if r.random() < 0.6:
                f["retry"] = r.choice([0, 1, 1, 2, 3, 7, 1000, (1 << 64) - 1])
            if "SLOW_SPLIT" in msg:
                f["split_ikey"] = r.choice([h16(int(bounds[0], 16) + r.choice([-200_000, -199_999, 0, 5, 199_999, 200_000])) if re.fullmatch("[0-9a-f]{16}", bounds[0]) else "5", r.choice(keys), h16(r.getrandbits(64))])
                if r.random() < 0.6:
                    f["propagate_elapsed_us"] = r.choice([0, 0, 1, 17, 5000])
                if r.random() < 0.5:
                    f["is_layer_root"] = r.random() < 0.5
            if "INTERNODE_SPLIT" in msg:
                if r.random() < 0.7:
                    f["sibling_is_split_locked"] = r.random() < 0.7
                if r.random() < 0.7:
                    f["result_ok"] = r.random() < 0.6
                if r.random() < 0.7:
                    f["new_parent"] = r.choice(["NEW_ROOT", "LAYER_ROOT", "0x55", "new_root"])
                f["sibling_ptr"] = r.choice(nodes)
            if "INTERNODE_DESCENT" in msg:
                f["inode_ptr"] = r.choice(nodes)
                if r.random() < 0.9:
                    f["child_idx"] = r.randint(0, r.choice([2, 5, 15]))
                if r.random() < 0.8:
                    f["k0"] = r.choice(keys)
                if r.random() < 0.6:
                    f["k_last"] = r.choice(keys)
            if r.random() < 0.05:
                f[r.choice(STR + NUM + BOOL)] = r.choice([None, 7, "x", True, -1, 1.5, 1 << 64, {}])
            if r.random() < 0.1:
                f["unknown_field"] = r.choice([1, "a", [1, {"b": 2}]])
            e = dict(timestamp="2026-01-01T00:00:00Z", level="WARN", fields=f, target="masstree")
            if r.random() < 0.9:
                e["threadId"] = r.choice(threads)
            if r.random() < 0.03:
                e = r.choice([dict(threadId="ThreadId(1)"), dict(e, fields=None), dict(e, threadId=5), 5, "COVERAGE_COLLAPSE", None])
            line = json.dumps(e, ensure_ascii=r.random() < 0.5, separators=r.choice([(",", ":"), (", ", ": ")])).encode()
            x = r.random()
            if x < 0.03:
                line = line[: r.randint(0, len(line) - 1)]
            elif x < 0.05:
                line = line + b"}"
            elif x < 0.07:
                line = r.choice([b"", b"not json", b"\xff\xfe", line[:20] + b"\xc3" + line[20:], b"   "])
            if x < 0.07 and b"\n" in line:
                line = b""
            reps = r.choice(REPS)
            if r.random() < 0.01:
                reps = r.choice([999, 1000, 1001, 1002])
            # Repetitions spread over the file, so that what is first matters.
            while reps > 0:
                k = reps if r.random() < 0.7 else r.randint(1, reps)
                lines.append([line, k])
                reps -= k
        r.shuffle(lines)
        files[f"run_{i:02}" + r.choice(["", "", "_b", ".x"]) + ".json"] = lines
    if r.random() < 0.2:
        files[r.choice(["a.txt", "AnalyzerSummary.md", "x.jsonl", "json", "noext"])] = [[b'{"fields":{"message":"INSERT_ABORT","ikey":"1"}}', 5]]
    if r.random() < 0.08:
        files["dir.json"] = None
    return dict(files=files, crlf=r.random() < 0.1, tail=r.random() < 0.8, order=r.getrandbits(30))


def features(case):
    """What the case exercises; non-trivial is a log with events of two classes and a repeated bound."""
    f, seen = {}, {}
    for n, l in case["files"].items():
        if l and n.endswith(".json"):
            a = count(l)
            f["nontrivial"] = f.get("nontrivial") or (sum(1 for c in a["n"].values() if c) >= 2 and a["max"] >= 2)
            f[["normal", "elevated", "critical"][a["sev"]]] = True
            f["tied bounds"] = f.get("tied bounds") or len(a["cands"]) > 1
            for k, s in a["keys"].items():
                f["key over 100 events"] = f.get("key over 100 events") or s["cc"] > 100 or s["fl"] > 100
                f["sticky key"] = f.get("sticky key") or sticky(s)
                seen[k] = seen.get(k, 0) + (s["cc"] > 10 or s["fl"] > 10)
            f["splits listed"] = f.get("splits listed") or bool(a["splits"])
            f["over 200 splits"] = f.get("over 200 splits") or len(a["splits"]) >= 200
            f["hot internode"] = f.get("hot internode") or any(c > 100 for c in a["routes"].values())
        if l is None:
            f["directory named like a log"] = True
    f["keys of several runs"] = any(c > 1 for c in seen.values())
    return f


def run(case):
    d = tempfile.mkdtemp(prefix="c23-", dir=SCRATCH)
    try:
        logs = os.path.join(d, "logs")
        os.mkdir(logs)
        names = list(case["files"])
        random.Random(case["order"]).shuffle(names)
        for n in names:
            p = os.path.join(logs, n)
            if case["files"][n] is None:
                os.mkdir(p)
                continue
            end = b"\r\n" if case["crlf"] else b"\n"
            data = b"".join((l + end) * k for l, k in case["files"][n])
            if not case["tail"] and data:
                data = data[: -len(end)]
            open(p, "wb").write(data)
        runs = []
        for n in sorted(f for f in names if f.endswith(".json") and f != ".json"):
            lines = case["files"][n]
            if lines and not case["tail"] and lines[-1][0] == b"":
                # The last, empty line has no end of line: it is none.
                lines = [list(x) for x in lines]
                lines[-1][1] -= 1
            a = count(lines or [])
            a["name"] = n[: -len(".json")]
            runs.append(a)
        outs = []
        for _ in range(2):
            try:
                p = subprocess.run([EXE, logs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=TIMEOUT, cwd=d,
                                   preexec_fn=limits)
            except subprocess.TimeoutExpired:
                return f"no end within {TIMEOUT} s"
            if not runs:
                return None if p.returncode == 1 else f"exit status {p.returncode} without logs"
            if p.returncode != 0:
                return f"exit status {p.returncode}: {p.stderr.decode(errors='replace')[-300:]}"
            md = open(os.path.join(logs, "AnalyzerSummary.md"), encoding="utf-8").read()
            outs.append((re.sub(r"\*\*Generated:\*\*.*", "", md), p.stdout.decode()))
        try:
            check_md(outs[0][0], runs)
            check_out(outs[0][1], runs)
        except Bad as e:
            return str(e)
        except (KeyError, IndexError, TypeError) as e:
            return f"the report lacks an expected part ({type(e).__name__}: {e})"
        if outs[0] != outs[1]:
            for x, y in zip((outs[0][0] + outs[0][1]).split("\n"), (outs[1][0] + outs[1][1]).split("\n")):
                if x != y:
                    return f"two runs over the same logs differ: {x!r} and {y!r}"
            return "two runs over the same logs differ"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (50, 55))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


def pack(case):
    """The case for the replay file: bytes as latin-1 text."""
    return dict(case, files={n: None if l is None else [[x.decode("latin-1"), k] for x, k in l] for n, l in case["files"].items()})


def unpack(c):
    return dict(c, files={n: None if l is None else [[x.encode("latin-1"), k] for x, k in l] for n, l in c["files"].items()})


def shrink(case, deadline):
    msg = run(case)
    for _ in range(20):
        changed = False
        for n in list(case["files"]):
            c = dict(case, files={k: v for k, v in case["files"].items() if k != n})
            if len(case["files"]) > 1 and time.time() < deadline and (m := run(c)):
                case, msg, changed = c, m, True
        for n in list(case["files"]):
            size = len(case["files"][n] or [])
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(case["files"][n]) and time.time() < deadline:
                    l = case["files"][n]
                    c = dict(case, files=dict(case["files"], **{n: l[:i] + l[i + size:]}))
                    if m := run(c):
                        case, msg, changed = c, m, True
                    else:
                        i += size
                size //= 2
            for i in range(len(case["files"][n] or [])):
                while case["files"][n][i][1] > 1 and time.time() < deadline:
                    l = [list(x) for x in case["files"][n]]
                    done = False
                    for k in (1, l[i][1] // 2, l[i][1] - 1):
                        l[i][1] = k
                        c = dict(case, files=dict(case["files"], **{n: l}))
                        if m := run(c):
                            case, msg, changed, done = c, m, True, True
                            break
                    if not done:
                        break
        if not changed or time.time() > deadline:
            break
    return case, msg


def one(a):
    seed0, j = a
    h = hashlib.sha256(f"{seed0}/{j}".encode()).digest()
    case = generate(random.Random(int.from_bytes(h, "big")))
    return case, run(case), features(case), hashlib.sha256(json.dumps(pack(case), sort_keys=True).encode()).hexdigest()


def init(scratch):
    global SCRATCH
    SCRATCH = scratch


def main():
    args = sys.argv[1:]
    def opt(n, d=None):
        return args[args.index(n) + 1] if n in args else d
    tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed0, scale = int(os.environ.get("VERIF_SEED", "1") or 1), float(opt("--scale", "1"))
    scratch = tempfile.mkdtemp(prefix="c23-scratch-", dir=os.path.join(ROOT, ".work") if os.path.isdir(os.path.join(ROOT, ".work")) else None)
    init(scratch)
    rc, t0 = 0, time.time()
    try:
        if "--replay" in args:
            m = run(unpack(json.load(open(opt("--replay")))["case"]))
            print(m or "ok")
            return 1 if m else 0
        total = max(1, int((100_000 if tier == "thorough" else 5_000) * scale))
        done = nontriv = lines = 0
        distinct, samples, fail = set(), [], None
        shape = {}
        with cf.ProcessPoolExecutor(max_workers=len(os.sched_getaffinity(0)), initializer=init, initargs=(scratch,)) as ex:
            for case, msg, feat, h in ex.map(one, ((seed0, j) for j in range(total)), chunksize=8):
                done += 1
                nt = feat.get("nontrivial")
                if nt:
                    nontriv += 1
                    distinct.add(h)
                n = sum(k for l in case["files"].values() if l for _, k in l)
                lines += n
                for name in feat:
                    shape[name] = shape.get(name, 0) + bool(feat[name])
                if len(samples) < 3 and nt and n < 60:
                    samples.append(pack(case))
                if msg:
                    fail = (case, msg)
                    break
            if fail:
                ex.shutdown(cancel_futures=True)
        if fail:
            case, msg = shrink(fail[0], time.time() + 200)
            path = os.path.join("replays", f"{PROP}.json")
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            json.dump(dict(property=PROP, message=msg, case=pack(case)), open(os.path.join(ROOT, path), "w"), indent=1)
            print(json.dumps(pack(case))[:1500] + f"\n=> {msg}")
            print(f"VIOLATION property={PROP} replay={os.path.join(ROOT, path)}")
            rc = 1
        wall = time.time() - t0
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(dict(property=PROP, tier=tier, seed=seed0, level="exploration", wall_s=round(wall, 1),
                       coverage=dict(evaluations=done, nontrivial_evaluations=nontriv, distinct_nontrivial=len(distinct),
                                     rule="a generated log directory; non-trivial when one log has events of at least two classes and a leaf bound that repeats",
                                     samples=samples, counters=dict(shape, log_lines=lines))),
                  open(os.path.join(ROOT, "evidence", f"{PROP}.json"), "w"), indent=1)
        print(f"{'OK' if rc == 0 else 'FAILED'} property={PROP} cases={done} nontrivial={nontriv} distinct={len(distinct)} wall={wall:.1f}s")
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
