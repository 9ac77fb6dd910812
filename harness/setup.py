#!/usr/bin/env python3
"""Setup: parses every specification module; nothing is generated."""
import concurrent.futures as cf
import glob
import os
import subprocess
import sys
sys.dont_write_bytecode = True
from vlib import CP, SPEC


def sany(f):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return f, p.returncode == 0 and "*** Errors" not in p.stdout, p.stdout


bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for f, ok, out in ex.map(sany, sorted(glob.glob(os.path.join(SPEC, "*.tla")))):
        print(("ok   " if ok else "FAIL ") + os.path.basename(f))
        if not ok:
            bad = 1
            print(out)
sys.exit(bad)
