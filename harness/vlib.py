"""Machinery shared by the checks: drives TLC over recorded traces, turns its
verdicts into VIOLATION / KNOWN-FINDING lines, writes the evidence file."""
import concurrent.futures as cf
import glob, json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TLA = os.environ.get("VERIF_TLA_HOME", "/opt/veriftools/tla")
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
VENV_PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")     # another tree only for trying planted bugs
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))


class MachineryError(Exception):
    pass


def run_tlc(module, cfg, workdir, env=None, workers=1, heap="2g", args=(), timeout=800, stack=None):
    """One TLC run on spec/<module>.tla.  Returns (ok, stdout)."""
    meta = tempfile.mkdtemp(dir=workdir, prefix="meta")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}",
           "-Xss" + (stack or "64m"), "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg),
           *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode == 0, p.stdout


def tlc_counts(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Rejected:
    def __init__(self, line, bad, why):
        self.line, self.bad, self.why = line, bad, why


def rejected(out):
    """A trace whose next event is no step of the specification at all: its
    evaluation fails after at least one step (what is recorded is not of the
    kind any step yields), as after an earlier difference it may."""
    if re.search(r"OutOfMemory|StackOverflow|Java heap|Parsing or semantic|Could not find module|timed out", out):
        return None
    at = re.findall(r"^/\\ l = (\d+)$", out, re.M)
    if not at or not re.search(r"ttempted to|was not in the domain|evaluat|Deadlock", out) or "Evaluating postcondition" in out:
        return None
    bad = re.findall(r"^/\\ bad = (.*?)(?=^/\\ |\Z|^$)", out, re.M | re.S)
    return Rejected(int(at[-1]), bad[-1].strip()[:1500] if bad else "", out[max(0, out.find("Error:")):][:600])


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = self.events = 0
        self.ops = {}
        self.failures = []      # dicts: clause, exp, event
        self.known = {}
        self.samples = []
        self.distinct = set()
        self.models = []
        self.notes = []
        self.canaries = [0, 0]  # expected, flagged
        self.accepted = []

    # --- model checking ---------------------------------------------------
    def model_check(self, module, cfg, what, workers=8, heap="6g", env=None, args=(), timeout=800):
        ok, out = run_tlc(module, cfg, self.work, env=env, workers=workers, heap=heap, args=args, timeout=timeout)
        g, d = tlc_counts(out)
        if not ok:
            raise MachineryError(f"model {module}/{cfg} is not accepted:\n{out[-3000:]}")
        self.transitions += g
        self.states += d
        self.models.append({"module": module, "config": cfg, "what": what, "generated": g, "distinct": d})
        return out

    # --- driver -----------------------------------------------------------
    def drive(self, driver, args=(), timeout=600, env=None):
        """Runs harness/<driver>.py in the repository's interpreter; it writes
        trace shards (one JSON object per line) named *.ndjson to a directory."""
        out = tempfile.mkdtemp(dir=self.work, prefix="traces")
        timeout = timeout if self.tier == "thorough" else 500
        pyc = tempfile.mkdtemp(dir=self.work, prefix="pyc")
        e = dict(os.environ)
        e.update({"PYTHONPYCACHEPREFIX": pyc, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": REPO,
                  "VERIF_TIER": self.tier, "VERIF_SEED": str(self.seed), "PYTHONHASHSEED": str(self.seed)})
        e.update(env or {})
        try:
            p = subprocess.run([VENV_PY, "-W", "ignore", os.path.join(ROOT, "harness", driver + ".py"), out, *map(str, args)],
                               cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            if self.tier == "thorough":
                raise MachineryError(f"driver {driver} timed out: {ex}")
            # ten times what the slowest driver takes: a call does not return
            return self.stopped(out, "a call did not return", str(ex.stdout or "")[-3000:])
        if rc != 0:
            if os.path.join(REPO, "hwtypes") in txt or re.search(r"(ImportError|AttributeError|ModuleNotFoundError): .*hwtypes", txt):
                # importing the library, or defining classes with it, fails
                return self.stopped(out, "the library cannot be used", txt[-3000:])
            raise MachineryError(f"driver {driver} failed ({rc}):\n{txt[-3000:]}")
        return out

    def stopped(self, out, what, txt):
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        with open(os.path.join(out, "crash.json"), "w") as f:
            json.dump({"error": what, "tb": txt}, f)
        return out

    def drive_split(self, driver, files, args=(), parts=8, timeout=800):
        """The driver, run several times at once, each on a part of the programs;
        all traces end up in one directory.  Work that does not depend on the
        programs is done by part 0."""
        def one(j):
            mine = []
            for f in files:
                with open(f) as fh:
                    lines = fh.readlines()
                path = f"{f}.part{j}"
                with open(path, "w") as fh:
                    fh.writelines(lines[j::parts])
                mine.append(path)
            return self.drive(driver, list(args) + mine, timeout=timeout, env={"VERIF_PART": str(j)})
        total = tempfile.mkdtemp(dir=self.work, prefix="traces")
        with cf.ThreadPoolExecutor(parts) as ex:
            for j, d in enumerate(ex.map(one, range(parts))):
                for f in os.listdir(d):
                    os.rename(os.path.join(d, f), os.path.join(total, f"p{j}{f}" if f != "crash.json" else f))
        return total

    # --- trace validation ---------------------------------------------------
    def validate(self, tracedir, module, cfg=None, heap="3g", jobs=8, timeout=800, extra_env=None):
        cfg = cfg or module + ".cfg"
        shards = sorted(os.path.join(tracedir, f) for f in os.listdir(tracedir) if f.endswith(".ndjson"))
        if not shards and os.path.exists(os.path.join(tracedir, "crash.json")):
            return
        if not shards:
            raise MachineryError("driver wrote no trace")

        def one(shard):
            wd = tempfile.mkdtemp(dir=self.work, prefix="tlc")
            verdict = os.path.join(wd, "verdict.json")
            env = {"TRACE": shard, "VERDICT": verdict}
            env.update(extra_env or {})
            ok, out = run_tlc(module, cfg, wd, env=env, workers=1, heap=heap, timeout=timeout)
            if not ok and (r := rejected(out)):
                return shard, r, tlc_counts(out)
            if not ok or not os.path.exists(verdict):
                keep = os.path.join(tempfile.gettempdir(), f"verif-failed-{self.prop}.ndjson")
                shutil.copy(shard, keep)
                raise MachineryError(f"TLC did not finish on {shard} (kept as {keep}):\n{out[max(0, out.find("Error:")):][:3500]}")
            with open(verdict) as f:
                rows = [json.loads(x) for x in f if x.strip()]
            return shard, rows, tlc_counts(out)

        with cf.ThreadPoolExecutor(jobs) as ex:
            for shard, rows, (g, d) in ex.map(one, shards):
                with open(shard) as f:
                    events = [json.loads(x) for x in f if x.strip()]
                if isinstance(rows, Rejected):
                    i = min(rows.line, len(events))
                    start = max([j for j, e in enumerate(events[:i]) if e.get("op") == "reset"] or [0])
                    self.failures.append({"clause": "trace.rejected", "expected": {"k": "a behaviour of the specification", "found so far": rows.bad, "no step": rows.why},
                                          "event": events[i - 1], "trace": os.path.basename(shard), "line": i, "history": events[start:i][-400:]})
                    continue
                if rows[0]["consumed"] != len(events):
                    raise MachineryError(f"{shard}: {rows[0]['consumed']} of {len(events)} events consumed")
                self.transitions += g
                self.states += d
                self.traces += 1
                self._digest(events, rows[1:], os.path.basename(shard))

    def _digest(self, events, rows, name):
        flagged = {}
        for r in rows:
            flagged.setdefault(r["l"], []).append(r)
        start = 0
        for i, e in enumerate(events, 1):
            if e.get("op") == "reset":
                start = i
            if e.get("canary"):
                self.canaries[0] += 1
                if any(r["v"] == "bad" for r in flagged.get(i, ())):
                    self.canaries[1] += 1
                else:
                    self.accepted.append(json.dumps(e)[:500])
                continue
            if e.get("op") != "reset":
                self.events += 1
                key = e.get("op", "?") + (":" + str(e["o"]) if "o" in e else "")
                self.ops[key] = self.ops.get(key, 0) + 1
                h = hash(json.dumps({k: v for k, v in e.items() if k not in ("r", "post", "id")}, sort_keys=True))
                if h not in self.distinct:
                    self.distinct.add(h)
                if self.ops[key] == 1 and len(self.samples) < 12:
                    self.samples.append(e)
            for r in flagged.get(i, ()):
                if r["v"] == "known":
                    k = self.known.setdefault(r["c"], {"n": 0, "example": None})
                    k["n"] += 1
                    k["example"] = k["example"] or {"event": e, "expected": r["exp"]}
                else:
                    hist = events[start:i] if start and i - start < 400 else [e]
                    self.failures.append({"clause": r["c"], "expected": r.get("exp"), "event": e, "trace": name,
                                          "line": i, "history": hist})

    # --- verdict ----------------------------------------------------------------
    def known_findings(self):
        p = os.path.join(ROOT, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == self.prop]

    def finish(self, rule, assumptions=(), extra=None):
        listed = {x["id"]: x for x in self.known_findings()}
        for c, k in sorted(self.known.items()):
            if c in listed:
                print(f"KNOWN-FINDING: property={self.prop} {listed[c]['what']} ({k['n']} occurrences)")
            else:
                self.failures.append({"clause": c, "expected": k["example"]["expected"], "event": k["example"]["event"],
                                      "trace": "", "line": 0, "history": []})
        rc = 0
        paths = []
        d = os.path.join(EVIDENCE, "replays")
        for old in glob.glob(os.path.join(d, f"{self.prop}-*.json")):
            os.unlink(old)
        if self.failures:
            rc = 1
            os.makedirs(d, exist_ok=True)
            seen = set()
            for f in self.failures:
                ev = f["event"]
                key = (f["clause"], ev.get("op"), ev.get("o"))
                if key in seen:
                    continue
                seen.add(key)
                if len(paths) < 10:
                    path = os.path.join(d, f"{self.prop}-{len(paths)}.json")
                    with open(path, "w") as fh:
                        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, **f}, fh, indent=1)
                    paths.append((path, f))
            for path, f in paths:
                ev = json.dumps(f["event"])
                print(f"  {f['clause']}: {ev[:600]}\n    the specification requires {json.dumps(f['expected'])[:400]}")
            print(f"VIOLATION property={self.prop} replay={paths[0][0]}")
        elif self.canaries[0] != self.canaries[1]:
            raise MachineryError(f"corrupted events not rejected: {self.canaries} {self.accepted[:4]}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "events_validated": self.events, "distinct_events": len(self.distinct), "rule": rule,
               "events_per_operation": dict(sorted(self.ops.items())), "models": self.models,
               "corrupted_events_rejected": self.canaries[1]}
        if self.level == "exploration":
            cov["evaluations"] = self.events
            cov["distinct_nontrivial"] = len(self.distinct)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.failures)}
        if self.known:
            ev["coverage"]["known_findings_seen"] = {c: k["n"] for c, k in self.known.items()}
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, f"{self.prop}.json"))
        print(f"{self.prop} {self.tier}: {self.events} events in {self.traces} traces, {self.states} states, "
              f"{len(self.failures)} violations, {ev['wall_s']}s")
        return rc

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
