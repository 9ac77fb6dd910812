#!/usr/bin/env python3
"""Makes and confirms a planted bug.  plant.py FILE...: each FILE is Python
source defining ID, PROP, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO.
Writes /verif/seeded/<ID>/ once confirmed in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
RUN = '#!/bin/bash\n# exit 0: behaves as the property requires\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) and "stable" in json.load(open("/opt/vp/BASELINE.json")) else None


def one(spec):
    g = {}
    exec(open(spec).read(), g)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        d = os.path.join(tmp, g["ID"])
        os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(RUN)
        open(os.path.join(d, "demo.py"), "w").write(g["DEMO"].lstrip())
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        run = lambda: subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
        p = run()
        if p.returncode:
            return f"{g['ID']}: demo fails on the unchanged tree\n{p.stdout[-1500:]}"
        for path, old, new in g["EDITS"]:
            f = os.path.join(tree, path)
            s = open(f).read()
            if s.count(old) != 1:
                return f"{g['ID']}: {path}: {s.count(old)} matches of {old!r}"
            open(f, "w").write(s.replace(old, new))
        p = run()
        if p.returncode == 0:
            return f"{g['ID']}: demo does not notice"
        msg = p.stdout.strip().splitlines()[-1:]
        e = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--disable-warnings", "-x", "tests"], cwd=tree, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if t.returncode:
            return f"{g['ID']}: the tests notice\n{t.stdout[-1200:]}"
        diff = subprocess.run(["git", "-C", tree, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        # lines of the original repository only
        for path in {e[0] for e in g["EDITS"]}:
            own = set(subprocess.run(["git", "-C", "/repo", "diff", "80b9860", "HEAD", "--", path], stdout=subprocess.PIPE, text=True).stdout.splitlines())
            added = {x[1:].strip() for x in own if x.startswith("+") and not x.startswith("+++")}
            for x in diff.splitlines():
                if x.startswith("-") and not x.startswith("---") and x[1:].strip() in added and x[1:].strip():
                    return f"{g['ID']}: touches a line of a fix: {x}"
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        dst = os.path.join(ROOT, "seeded", g["ID"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return f"{g['ID']}: planted ({msg})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


import concurrent.futures as cf
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, sys.argv[1:]):
        print(r, flush=True)
