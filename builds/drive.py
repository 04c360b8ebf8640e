#!/usr/bin/env python3
"""C25: runs the same generated checks on several builds of the library, one after the other.

drive.py C25 [--tier T] [--arm NAME] [--scale X] [--replay FILE]
"""
import json, os, shutil, subprocess, sys, time

PROP = "C25"
ROOT = os.environ.get("MT_VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Last, so that the plain build, which is the one users have, is judged first.
VARIANTS = ["plain", "traced"]


def exe(v):
    p = subprocess.run([os.path.join(ROOT, "build.sh"), "map", "map", v], stdout=subprocess.PIPE, text=True)
    if p.returncode:
        print(f"build of map ({v}) failed", file=sys.stderr)
        sys.exit(2)
    return p.stdout.strip()


def main():
    args = sys.argv[2:]
    t0 = time.time()
    variants = VARIANTS
    if "--replay" in args:
        arm = json.load(open(args[args.index("--replay") + 1])).get("arm", "")
        variants = [v for v in VARIANTS if arm.startswith(v)]
    elif "--arm" in args:
        arm = args[args.index("--arm") + 1]
        variants = [v for v in VARIANTS if arm.startswith(v)]
    ev = None
    for v in variants:
        e = exe(v)
        d = os.path.join(ROOT, ".work", f"{PROP}-{v}-{os.getpid()}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(ROOT, "known_findings.txt"), d)
        try:
            p = subprocess.run([e, PROP] + args, stdout=subprocess.PIPE, text=True, env=dict(os.environ, MT_VERIF_ROOT=d))
            out = p.stdout
            if p.returncode == 1 and "--replay" not in args:
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                path = os.path.join(ROOT, "replays", f"{PROP}.json")
                shutil.copy(os.path.join(d, "replays", f"{PROP}.json"), path)
                out = out.replace(os.path.join(d, "replays", f"{PROP}.json"), path)
            print(f"{v}: " + out, end="", flush=True)
            if p.returncode == 1:
                if "VIOLATION" in out:
                    # on a line of its own
                    for line in out.splitlines():
                        if line.startswith("VIOLATION"):
                            print(line)
                sys.exit(1)
            if p.returncode:
                sys.exit(2)
            if "--replay" in args:
                sys.exit(0)
            one = json.load(open(os.path.join(d, "evidence", f"{PROP}.json")))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if ev is None:
            ev = one
        else:
            a, b = ev["coverage"], one["coverage"]
            for k in ("evaluations", "distinct_nontrivial", "nontrivial_evaluations"):
                a[k] += b[k]
            a["samples"] += b["samples"]
            a["counters"].update(b["counters"])
    ev["coverage"]["builds"] = variants
    ev["wall_s"] = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{PROP}.json"), "w"), indent=1)
    print(f"OK property={PROP} cases={ev['coverage']['evaluations']} wall={ev['wall_s']:.1f}s")


main()
