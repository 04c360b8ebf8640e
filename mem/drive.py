#!/usr/bin/env python3
"""Runs generated workloads on real threads under Miri and judges every run.

drive.py C24 [--tier T] [--arm NAME] [--scale X] [--replay FILE]
"""
import concurrent.futures as cf
import hashlib, json, os, random, re, subprocess, sys, time

PROP = "C24"
ROOT = os.environ.get("MT_VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
RUNNER = os.environ["MEM_RUNNER"]
EXE = os.environ["MEM_EXE"]
TIMEOUT = 200


def hexk(b):
    return b.hex()


def ops_for(r, keys_new, keys_old, n, p_ins=0.5):
    """A thread's operations: inserts of its new keys and of shared ones, lookups, kept references."""
    out = []
    for _ in range(n):
        x = r.random()
        pool = keys_new if (keys_new and r.random() < 0.6) or not keys_old else keys_old
        k = hexk(r.choice(pool))
        if x < p_ins:
            out.append(("i" if r.random() < 0.8 else "I") + k)
        elif x < p_ins + 0.2:
            out.append(("g" if r.random() < 0.8 else "G") + k)
        elif x < p_ins + 0.38:
            out.append("r" + k)
        elif x < p_ins + 0.46:
            out.append("d")
        else:
            out.append("l")
    return out


def be(x):
    return x.to_bytes(8, "big")


def prelude(r, keys):
    ks = list(keys)
    k = r.random()
    if k < 0.4:
        r.shuffle(ks)
    elif k < 0.6:
        ks.reverse()
    return ["i" + hexk(k) for k in ks]


def kind(r):
    return "arc" if r.random() < 0.6 else "inline"


def threads(r, mk, lo=2, hi=3):
    return [mk(i) for i in range(r.randint(lo, hi))]


def g_updates(r, thorough):
    """A few keys, replaced and read through references all the time."""
    keys = [be(x) for x in r.sample(range(9), r.randint(1, 3))]
    lists = [prelude(r, keys[: r.randint(0, len(keys))])]
    lists += threads(r, lambda i: ops_for(r, keys, keys, r.randint(3, 8), 0.55), 2, 4)
    return kind(r), lists


def g_split(r, thorough):
    """A nearly full leaf, threads insert around it."""
    n = r.choice([20, 22, 23, 24, 24, 30, 47] + ([60, 120] if thorough else []))
    step = r.choice([2, 4, 10])
    old = [be(100 + step * i) for i in range(n)]
    lists = [prelude(r, old)]
    lo, hi = 98, 102 + step * n
    side = r.random()

    def mk(i):
        if side < 0.3:
            new = [be(hi + j) for j in range(1, 6)]
        elif side < 0.5:
            new = [be(lo - j) for j in range(1, 6)]
        else:
            new = [be(r.randint(lo, hi)) for _ in range(6)]
        return ops_for(r, new, r.sample(old, min(4, n)), r.randint(3, 7), 0.6)

    lists += threads(r, mk)
    return kind(r), lists


def g_layers(r, thorough):
    """Keys that share whole slices: layers are created, entered and split."""
    p = r.choice([8, 16, 24, 8])
    pre = bytes([r.choice(b"ab")]) * p
    tails = [bytes(r.choice(b"abc\0") for _ in range(r.randint(0, 8))) for _ in range(8)] + [be(r.randint(0, 9)) for _ in range(4)]
    pool = [pre + t for t in tails] + [pre[: r.randint(0, p)] for _ in range(2)]
    first = [pre + tails[0]] if r.random() < 0.7 else []
    if first and r.random() < 0.3:
        first += [pre + be(i) for i in range(10, r.choice([32, 33, 34]))]
    # Of the keys that end in this layer's slices only those of at most one slice more are used, so
    # that no thread adds a suffix to a leaf another one reads (that is the arm `suffix`).
    new = [k for k in pool if len(k) <= 8 or k[:8] == pre[:8]]
    lists = [prelude(r, first or [pre + be(0)])]
    lists += threads(r, lambda i: ops_for(r, new, first, r.randint(2, 6), 0.6))
    return kind(r), lists


def g_conflict(r, thorough):
    """A stored suffix is pushed down into a new layer under its readers."""
    slices = [bytes([c]) * 8 for c in r.sample(range(97, 120), r.randint(1, 3))]
    olds = [s + bytes([r.choice(b"xy")]) * r.randint(1, 8) for s in slices]
    fill = [bytes([c]) for c in range(r.choice([0, 0, 18, 21, 22]))]
    lists = [prelude(r, olds + fill)]

    def mk(i):
        new = []
        for s, o in zip(slices, olds):
            new += [s + bytes(r.choice(b"xyz") for _ in range(r.randint(1, 8))), s]
        new += [bytes([r.randint(0, 255), 1])]
        return ops_for(r, new, olds, r.randint(2, 6), 0.5)

    lists += threads(r, mk)
    return kind(r), lists


def g_suffix(r, thorough):
    """Suffixes are added to a leaf while others are read from it."""
    keys = [be(x) + bytes([r.choice(b"st")]) * r.randint(1, 12) for x in range(r.randint(2, 8))]
    lists = [prelude(r, keys[:1])]
    lists += threads(r, lambda i: ops_for(r, keys[1:], keys, r.randint(2, 5), 0.5))
    return kind(r), lists


def g_first(r, thorough):
    """The first and only suffix of a leaf is added under its readers, in one leaf or in a new layer."""
    pre = bytes([r.choice(b"pq")]) * r.choice([0, 0, 8])
    old = [pre + bytes([97 + i]) * r.randint(1, 8) for i in range(r.choice([1, 3, 23]))]
    k = pre + (old[0][len(pre):].ljust(8, b"a") if r.random() < 0.5 else b"suffixed") + bytes([r.choice(b"xy")]) * r.randint(1, 20)
    lists = [prelude(r, old)]
    lists += [["i" + hexk(k)] + ops_for(r, [k], old, r.randint(0, 3), 0.5)]
    lists += threads(r, lambda i: ops_for(r, [k], old, r.randint(2, 6), 0.15), 1, 2)
    return kind(r), lists


def g_empty(r, thorough):
    """The first keys of a map, from several threads at once."""
    fam = r.randint(0, 2)
    if fam == 0:
        keys = [bytes([c]) * n for c in b"a" for n in range(0, 9)]
    elif fam == 1:
        keys = [be(x) for x in range(6)]
    else:
        keys = [b"\0" * n for n in range(9)]
    lists = [[]] + threads(r, lambda i: ops_for(r, keys, keys, r.randint(2, 7), 0.6), 2, 4)
    return kind(r), lists


def g_inner(r, thorough):
    """Enough leaves that an inner node is full: its split and the new root run under readers."""
    n = r.choice([188, 192, 193, 196, 204] + ([380] if thorough else []))
    old = [be(1000 + 2 * i) for i in range(n)]
    lists = [["i" + hexk(k) for k in (old if r.random() < 0.7 else old[::-1])]]
    edge = 1000 + 2 * n if lists[0][0].startswith("i" + hexk(old[0])) else 900

    def mk(i):
        new = [be(edge + 6 * j + i) for j in range(14)]
        out = []
        for k in new:
            out.append("i" + hexk(k))
            if r.random() < 0.4:
                out.append(r.choice("gr") + hexk(r.choice(new + old[-30:])))
        return out

    lists += threads(r, mk, 2, 2)
    return kind(r), lists


def g_single(r, thorough):
    """One thread: memory errors that need no other thread."""
    keys = []
    for _ in range(r.randint(1, 40)):
        n = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 24, 40, 256, r.randint(0, 30)])
        base = r.choice(keys) if keys and r.random() < 0.6 else b""
        keys.append((base[: r.randint(0, len(base))] + bytes(r.choice(b"ab\0\xff") for _ in range(n)))[:256])
    l = ops_for(r, keys, keys, r.randint(10, 70), 0.65)
    return r.choice(["arc", "inline", "index"]), [l]


# ---------------------------------------------------------------- directed runs
# One thread stops in the middle of an operation while another runs some or all of its own. The
# program stops threads without ordering anything, so what the stopped thread sees afterwards is
# all the memory model allows, over a window that undirected runs hit by chance only.

DONE = "99.0"


NATIVE = os.environ.get("MEM_NATIVE", "")


def clashes(k, lists, t):
    """Where thread t, run first, and the other, run after it, touch what one of them writes."""
    out = {"R": [], "W": []}
    try:
        p = subprocess.run([NATIVE, *text(k, lists), f"solo{t}"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=20)
        for w, o, n, site in re.findall(r"^([RW]) (\d+)\.(\d+) (.*)$", p.stdout, re.M):
            out[w].append((int(o), int(n), site))
    except (OSError, subprocess.TimeoutExpired):
        pass
    return out["R"], out["W"]


def plan(r, k, lists):
    """Stops for two threads: a whole run inside another's operation, or two to three alternations.

    Most stops are at an access that conflicts with one of the other thread, or just after it.
    """
    lists = trim(k, lists)
    t, u = r.choice([(1, 2), (2, 1)])
    touched, written = clashes(k, lists, t)

    def any_spot(th):
        o = r.randrange(len(lists[th]))
        ins = lists[th][o][0] in "iI"
        return o, r.randint(1, r.choice([12, 20, 40, 80, 200] if ins else [12, 20, 40]))

    def spot(th, at, shifts):
        if not at or r.random() < 0.2:
            return any_spot(th)
        # An operation and a place in the source first: what is repeated would take most stops otherwise.
        o = r.choice(sorted({x[0] for x in at}))
        site = r.choice(sorted({x[2] for x in at if x[0] == o}))
        n = r.choice([x[1] for x in at if x[0] == o and x[2] == site])
        return o, max(1, n + r.choice(shifts))

    (o, n), (p, m) = spot(t, touched, [0, 0, 0, 1]), spot(u, written, [0, 1, 1, 2])
    style = r.random()
    if style < 0.5:
        s = [f"{u}.0.1.{t}.{o}.{n}", f"{t}.{o}.{n}.{u}.{DONE}"]
    elif style < 0.75:
        s = [f"{u}.0.1.{t}.{o}.{n}", f"{t}.{o}.{n}.{u}.{p}.{m}", f"{u}.{p}.{m}.{t}.{DONE}"]
    else:
        later = [x for x in touched if x[0] == o and x[1] > n]
        n2 = r.choice(later)[1] if later and r.random() < 0.7 else n + r.randint(1, r.choice([3, 12, 40]))
        s = [f"{u}.0.1.{t}.{o}.{n}", f"{t}.{o}.{n}.{u}.{p}.{m}", f"{u}.{p}.{m}.{t}.{o}.{n2}", f"{t}.{o}.{n2}.{u}.{DONE}"]
    return lists, ",".join(s)


def trim(k, lists):
    """Of a long list of inserts, all before the one with the most effect are done beforehand."""
    for t in (1, 2):
        l = lists[t]
        if len(l) > 3 and all(o[0] in "iI" for o in l):
            count = {}
            for o, *_ in clashes(k, lists, t)[0]:
                count[o] = count.get(o, 0) + 1
            if count:
                most = max(sorted(count), key=count.get)
                lists = list(lists)
                lists[0], lists[t] = lists[0] + ["i" + o[1:] for o in l[:most]], l[most:most + 2]
    return lists


def few(r, keys, n, p_ins):
    """Short lists, so that a stop falls into the operation that matters."""
    out = []
    for _ in range(r.randint(1, n)):
        k = hexk(r.choice(keys))
        out.append((r.choice("iiI") if r.random() < p_ins else r.choice("ggGrr")) + k)
    return out


def two(r, writer, others, change, reads=0.6):
    """A writer of `change` and a reader or writer of keys around it."""
    w = writer + (few(r, change, 2, 0.8) if r.random() < 0.4 else [])
    o = few(r, others, 2, 1 - reads)
    return [w, o] if r.random() < 0.5 else [o, w]


def w_slot(r, thorough):
    """A slot of a leaf is filled, or a value replaced, around one operation."""
    n = r.choice([0, 1, 2, 5])
    old = [be(10 + 4 * i) for i in range(n)]
    new = [be(r.randint(8, 12 + 4 * n)) for _ in range(3)]
    keys = old + new
    return kind(r), [prelude(r, old)] + two(r, few(r, keys, 3, 1.0), keys, keys)


def w_split(r, thorough):
    """A leaf splits around one operation."""
    n = r.choice([24, 24, 24, 23])
    old = [be(100 + 4 * i) for i in range(n)]
    if r.random() < 0.25:
        # several keys in a slice: other split points
        old = sorted(old[: n - 6] + [be(100 + 4 * 9)[:i] for i in range(2, 8)])[:24]
    at = r.choice([0, 3, 11, 12, 13, 20, 23, 24, r.randint(0, 24)])
    new = [be(max(0, 98 + 4 * at + r.randint(0, 3))) for _ in range(3)]
    keys = r.sample(old, 3) + new + [old[0], old[-1], old[len(old) // 2]]
    return kind(r), [prelude(r, old)] + two(r, ["i" + hexk(k) for k in new[: r.randint(1, 3)]], keys, keys)


def w_layer(r, thorough):
    """Two keys come to share slices, or a layer's leaf splits, around one operation."""
    d = r.choice([8, 8, 16, 24])
    pre = b"p" * d
    if r.random() < 0.6:
        # Tails of one slice: no suffix is added to a leaf of the layer while it is read (see `suffix`).
        old = [pre + bytes([r.choice(b"xy")]) * r.randint(1, 8)] + [bytes([c]) for c in range(r.choice([0, 2, 22, 23]))]
        new = [pre + bytes(r.choice(b"xyz") for _ in range(r.randint(1, 8))) for _ in range(3)] + [pre, pre[:8]]
        return kind(r), [prelude(r, old)] + two(r, ["i" + hexk(r.choice(new[:3]))], old[:1] * 3 + new, new[:3])
    old = [pre + be(4 * i) for i in range(r.choice([23, 24, 24]))]
    new = [pre + be(r.randint(0, 100)) for _ in range(3)]
    keys = r.sample(old, 3) + new
    return kind(r), [prelude(r, old)] + two(r, ["i" + hexk(k) for k in new[: r.randint(1, 3)]], keys, keys)


def w_inner(r, thorough):
    """A leaf below an inner node splits, so keys and children of that node move, around one operation."""
    pre = r.choice([b"", b"", b"p" * 8])
    n = r.choice([25, 26, 37, 37, 49])
    old = [pre + be(1000 + 64 * i) for i in range(n)]
    first = ["i" + hexk(k) for k in (old if r.random() < 0.5 else old[::-1])]
    # Enough keys in one place that a leaf there splits; what is looked up lies about that place.
    at = r.choice([0, 5, 12, n // 2, n - 13, n - 1, r.randrange(n)])
    fill = [pre + be(1000 + 64 * at + j) for j in r.sample(range(1, 63), 13)]
    near = old[max(0, at - 6): at + 26]
    keys = r.sample(near, min(6, len(near))) * 2 + fill[-2:] + [old[0], old[-1]]
    w = ["i" + hexk(x) for x in fill]
    o = few(r, keys, 2, 0.3)
    return kind(r), [first] + ([w, o] if r.random() < 0.5 else [o, w])


def w_wide(r, thorough):
    """An inner node that is full splits, or the root gets a parent, around one operation."""
    n = r.choice([190, 192, 193, 204])
    up = r.random() < 0.6
    old = [be(10_000 + 4 * i) for i in range(n)]
    first = ["i" + hexk(k) for k in (old if up else old[::-1])]
    new = [be(10_000 + 4 * n + j) if up else be(9_990 - j) for j in range(13)]
    k = r.randint(4, 12)
    first += ["i" + hexk(x) for x in new[: 13 - k]]
    keys = r.sample(old, 6) + new[-k:] + [old[0], old[-1], old[n // 2]]
    w, o = ["i" + hexk(x) for x in new[-k:]], few(r, keys, 2, 0.3)
    return kind(r), [first] + ([w, o] if r.random() < 0.5 else [o, w])


# name, generator, cases quick, cases thorough
DIRECTED = [
    ("stop_slot", w_slot, 140, 5000),
    ("stop_split", w_split, 120, 6000),
    ("stop_layer", w_layer, 110, 5000),
    ("stop_inner", w_inner, 100, 5000),
    ("stop_wide", w_wide, 2, 300),
]

# name, generator, cases quick, cases thorough
ARMS = [
    ("updates", g_updates, 100, 2500),
    ("split", g_split, 80, 4000),
    ("layers", g_layers, 80, 2500),
    ("conflict", g_conflict, 80, 2500),
    ("empty", g_empty, 60, 1200),
    ("first", g_first, 40, 1000),
    ("suffix", g_suffix, 16, 100),
    # The known race of `suffix` ends a run; without the race detector what comes after it is seen.
    # Borrowing the storage to write it while a reader borrows it is that defect too, so these two
    # run without the aliasing model.
    ("no-races", g_suffix, 40, 1000),
    ("single", g_single, 24, 800),
    ("inner", g_inner, 6, 250),
] + DIRECTED
STOPPED = {n for n, *_ in DIRECTED}


def text(k, lists):
    """The arguments of the interpreter: the kind, the keys, the operations with keys by place."""
    place, out = {}, []
    for l in lists:
        out.append(",".join(o if o[0] in "dl" else f"{o[0]}{place.setdefault(o[1:], len(place))}" for o in l))
    return k, ",".join(place), "/".join(out)


SPENT = {}


def timed(name, *a):
    t = time.time()
    x = run(*a)
    SPENT[name] = SPENT.get(name, 0) + time.time() - t
    return x


def run(k, keys, ops, seed, rate, sb, races, stops=""):
    flags = [f"-Zmiri-seed={seed}", f"-Zmiri-preemption-rate={rate}"]
    if not races:
        flags.append("-Zmiri-disable-data-race-detector")
    if not sb:
        flags.append("-Zmiri-disable-stacked-borrows")
    env = dict(os.environ, MIRIFLAGS=" ".join(flags))
    try:
        p = subprocess.run([RUNNER, "runner", EXE, k, keys, ops, stops], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=TIMEOUT, cwd=HERE)
    except subprocess.TimeoutExpired:
        return "stall", "no result"
    if p.returncode == 0 and "DONE" in p.stdout:
        return "ok", p.stdout.split()[-1]
    err = p.stderr
    m = re.search(r"^error: (.*)$", err, re.M)
    o = re.search(r"^.*ORACLE.*$", err, re.M)
    head = o.group(0) if o and not (m and "Undefined" in m.group(1)) else (m.group(1) if m else err.strip()[-300:])
    if not m and not o and not re.search(r"panicked at", err):
        return "stall", err.strip()[-400:] or f"exit {p.returncode}"
    return "fail", head + "\n" + err


def signature(msg, arm):
    """Which known finding a failure is; otherwise its first line.

    The one known: in a leaf that already has suffixes a writer adds one in place while a reader
    without the lock looks at them. Only the arm `suffix` does that, and only two accesses within
    the suffix storage count; freed memory never does.
    """
    m = re.search(r"Data race detected between \(1\) (.*?) on thread .*? and \(2\) (.*?) on thread", msg)
    if arm == "suffix" and m and "dealloc" not in m.group(0).lower():
        earlier = re.search(r"occurred earlier here\n\s*--> (\S+?):\d+:", msg)
        where = earlier.group(1) if earlier else ""
        stack = re.findall(r"^\s*\d+: (.*)$", msg, re.M)[:12]
        now = any(re.search(r"\bsuffix::|ksuf", s) for s in stack)
        if now and (where.endswith("/suffix.rs") or where.endswith("/leaf24.rs") or "/library/" in where):
            return "race:suffix-assigned-in-place"
    return msg.split("\n")[0]


def known():
    out = {}
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(rf"finding: property={PROP} sig=(\S+)\s*(.*)", l)
        if m:
            out[m.group(1)] = m.group(2).strip()
    return out


def shrink(case, arm, deadline):
    """Drop operations and threads while some seed still fails in the same way."""
    k, lists, seed, rate, sb, races, *stops = case
    first = None

    def fails(ls):
        for s in [seed] + list(range(3)):
            st, msg = run(*text(k, ls), s, rate, sb, races, *stops)
            if st == "fail" and signature(msg, arm) not in KNOWN:
                return s, msg
        return None

    cur = [list(l) for l in lists]
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for t in range(len(cur) - 1, 0, -1):
            cand = cur[:t] + cur[t + 1:]
            r = fails(cand) if len(cand) > 1 else None
            if r:
                cur, seed, first, changed = cand, r[0], r[1], True
        for t in range(len(cur)):
            size = max(1, len(cur[t]) // 2)
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(cur[t]) and time.time() < deadline:
                    cand = [list(l) for l in cur]
                    del cand[t][i:i + size]
                    r = fails(cand)
                    if r:
                        cur, seed, first, changed = cand, r[0], r[1], True
                    else:
                        i += size
                size //= 2
    return (k, cur, seed, rate, sb, races, *stops), first


def nontrivial(lists):
    """Two threads of which one inserts a key while another touches some key; or a single list with inserts."""
    ts = lists[1:]
    if not ts:
        return sum(o[0] in "iI" for l in lists for o in l) >= 2
    ins = [any(o[0] in "iI" for o in l) for l in ts]
    touch = [any(o[0] in "iIgGr" for o in l) for l in ts]
    return any(a and b and i != j for i, a in enumerate(ins) for j, b in enumerate(touch))


def main():
    global KNOWN
    args = sys.argv[1:]
    def opt(n, d=None):
        return args[args.index(n) + 1] if n in args else d
    tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    only, scale = opt("--arm"), float(opt("--scale", "1"))
    KNOWN = known()
    if "--replay" in args:
        c = json.load(open(opt("--replay")))
        st, msg = run(c["kind"], c["keys"], c["ops"], c["seed"], c["rate"], c["stacked_borrows"], c["races"], c.get("stops", ""))
        print(msg or st)
        sys.exit(1 if st == "fail" else 0 if st == "ok" else 2)
    t0 = time.time()
    cases = []
    for name, gen, q, th in ARMS:
        if only and only != name:
            continue
        for j in range(max(1, int((th if tier == "thorough" else q) * scale))):
            h = hashlib.sha256(f"{seed0}/{name}/{j}".encode()).digest()
            r = random.Random(int.from_bytes(h, "big"))
            k, lists = gen(r, tier == "thorough")
            if name in STOPPED:
                cases.append((name, j, (k, lists, r.randrange(1 << 30), r.choice(["0", "0", "0.001"]), r.random() < 0.5, True, r)))
                continue
            cases.append((name, j, (k, lists, r.randrange(1 << 30), r.choice(["0.01", "0.03", "0.1", "0.3"]), r.random() < 0.7 and gen is not g_suffix, name != "no-races")))
    def directed(c):
        if c[0] not in STOPPED:
            return c
        x = plan(c[2][-1], *c[2][:2])
        return (*c[:2], (c[2][0], x[0], *c[2][2:-1], x[1]))

    with cf.ThreadPoolExecutor(max_workers=len(os.sched_getaffinity(0))) as ex:
        cases = list(ex.map(directed, cases))
    # Interleave the arms so that a failure of any shows early.
    total = {}
    for c in cases:
        total[c[0]] = total.get(c[0], 0) + 1
    cases.sort(key=lambda c: c[1] / total[c[0]])
    counters, samples, distinct, nontriv = {}, [], set(), 0
    hits, fail, stalls, done = {}, None, [], 0
    nproc = len(os.sched_getaffinity(0))
    with cf.ThreadPoolExecutor(max_workers=nproc) as ex:
        futs, it = {}, iter(cases)

        def feed():
            for c in it:
                futs[ex.submit(timed, c[0], *text(*c[2][:2]), *c[2][2:])] = c
                return

        for _ in range(nproc):
            feed()
        while futs:
            d, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in d:
                c = futs.pop(f)
                st, msg = f.result()
                name, j, case = c
                done += 1
                counters[f"{name}.cases"] = counters.get(f"{name}.cases", 0) + 1
                key = text(*case[:2]) + case[2:]
                if nontrivial(case[1]):
                    nontriv += 1
                    distinct.add(key)
                    counters[f"{name}.nontrivial"] = counters.get(f"{name}.nontrivial", 0) + 1
                if st == "ok" and name in STOPPED:
                    counters[f"{name}.stops"] = counters.get(f"{name}.stops", 0) + int(msg)
                if j < 2:
                    samples.append(dict(arm=name, case=j, kind=case[0], keys=key[1], ops=key[2], seed=case[2], preemption=case[3], stops="".join(case[6:])))
                if st == "fail":
                    sig = signature(msg, name)
                    if sig in KNOWN:
                        hits[sig] = hits.get(sig, 0) + 1
                    elif fail is None:
                        fail = (c, msg)
                elif st == "stall":
                    stalls.append((c, msg))
                if fail is None and not stalls:
                    feed()
    for n, t in SPENT.items():
        counters[f"{n}.worker_seconds"] = round(t, 1)
    rc = 0
    if fail:
        (name, j, case), msg = fail
        small, smsg = shrink(case, name, time.time() + (150 if tier == "quick" else 600))
        msg = smsg or msg
        path = os.path.join("replays", f"{PROP}.json")
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        k, keys, ops = text(*small[:2])
        json.dump(dict(property=PROP, arm=name, case=j, kind=k, keys=keys, ops=ops, seed=small[2], rate=small[3], stacked_borrows=small[4], races=small[5],
                       stops="".join(small[6:]), message=msg[:6000]), open(os.path.join(ROOT, path), "w"), indent=1)
        print(f"{k} {keys} {ops}\n=> " + "\n".join(msg.split("\n")[:14]))
        print(f"VIOLATION property={PROP} replay={os.path.join(ROOT, path)}")
        rc = 1
    elif stalls and run(*text(*stalls[0][0][2][:2]), *stalls[0][0][2][2:])[0] == "stall" and stalls[0][1] == "no result":
        # A case that takes seconds and gives nothing in minutes, twice, the second time alone.
        (name, j, case), msg = stalls[0]
        path = os.path.join("replays", f"{PROP}.json")
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        k, keys, ops = text(*case[:2])
        json.dump(dict(property=PROP, arm=name, case=j, kind=k, keys=keys, ops=ops, seed=case[2], rate=case[3], stacked_borrows=case[4],
                       races=case[5], stops="".join(case[6:]), message=f"no end within {TIMEOUT} s"), open(os.path.join(ROOT, path), "w"), indent=1)
        print(f"{k} {keys} {ops}\n=> no end within {TIMEOUT} s, twice")
        print(f"VIOLATION property={PROP} replay={os.path.join(ROOT, path)}")
        rc = 1
    elif stalls:
        print(f"{len(stalls)} runs gave no result, e.g. {stalls[0][0]}: {stalls[0][1]}", file=sys.stderr)
        rc = 2
    for s, n in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={PROP} {s} {KNOWN[s]}")
        counters[f"known {s}"] = n
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(dict(property=PROP, tier=tier, seed=seed0, level="exploration", wall_s=round(wall, 1),
                   coverage=dict(evaluations=done, nontrivial_evaluations=nontriv, distinct_nontrivial=len(distinct),
                                 rule="workload text, Miri seed and preemption rate generated per case; non-trivial when one thread inserts while another touches keys, or a single thread inserts at least twice",
                                 samples=samples, counters=counters),
                   assumptions=["Miri's model of Rust's memory and aliasing rules and its weak-memory emulation", "executions up to the size of the generated workloads"]),
              open(os.path.join(ROOT, "evidence", f"{PROP}.json"), "w"), indent=1)
    print(f"{'OK' if rc == 0 else 'FAILED'} property={PROP} cases={done} nontrivial={nontriv} distinct={len(distinct)} wall={wall:.1f}s")
    sys.exit(rc)


main()
