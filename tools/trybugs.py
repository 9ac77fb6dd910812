#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy of
/repo with the bug applied (VERIF_REPO).  trybugs.py [-j N] [-p PROP] [id...]"""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs, prop = 2, None
while args and args[0].startswith("-"):
    f = args.pop(0)
    if f == "-j": jobs = int(args.pop(0))
    if f == "-p": prop = args.pop(0)
S = os.path.join(ROOT, "seeded")
ids = args or sorted(os.listdir(S))


def one(i):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    p = prop or m["property"]
    tmp = tempfile.mkdtemp(prefix="try-")
    try:
        tree = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        a = subprocess.run(["git", "-C", tree, "apply", os.path.join(S, i, "patch.diff")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if a.returncode:
            return i, p, "patch does not apply", 0
        e = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=os.path.join(tmp, "ev"), VERIF_SEED="1")
        e.setdefault("VERIF_TIER", "quick")
        t = time.time()
        r = subprocess.run(["python3", os.path.join(ROOT, "harness", "checks.py"), p], env=e, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        tail = "" if r.returncode in (0, 1) else r.stdout[-600:]
        first = [x for x in r.stdout.splitlines() if x.startswith("  ")][:1]
        return i, p, ("caught" if hit else "MISSED" if r.returncode == 0 else f"BROKEN rc={r.returncode}"), f"{time.time()-t:.0f}s {first[0][:150] if first else ''} {tail}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


import concurrent.futures as cf
with cf.ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
