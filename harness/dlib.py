"""Driver side: calls the real library through its public interface, projects
what it returns onto the abstract values of the specification, and writes
trace shards.  No expectation is computed here; the specification judges."""
import copy
import enum
import json
import os
import random
import signal
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
PART = int(os.environ.get("VERIF_PART", "0"))     # of the programs, see Check.drive_split
THOROUGH = TIER == "thorough"


class OpTimeout(BaseException):
    pass


def _alarm(*_):
    raise OpTimeout()


signal.signal(signal.SIGALRM, _alarm)


_FORMS = random.Random(SEED * 7919 + 5)


class K(int):
    """an integer of a type of its own"""


class Count(enum.IntEnum):
    ZERO = 0
    ONE = 1
    TWO = 2
    THREE = 3
    FOUR = 4
    SEVEN = 7
    LAST = -1
    BIG = 255


_COUNTS = {int(c): c for c in Count}


def pyint(v):
    """v in one of the forms a Python integer has"""
    k = _FORMS.random()
    if k > .3:
        return v
    if k < .1 and v in (0, 1):
        return bool(v)
    if k < .2 and v in _COUNTS:
        return _COUNTS[v]
    return K(v)


def warns(fn):
    """fn and a function telling whether its last call warned"""
    seen = []

    def wrapped(*a, **k):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                return fn(*a, **k)
            finally:
                seen.append(int(any(issubclass(w.category, UserWarning) for w in ws)))
    return wrapped, lambda: seen[-1]


def call(fn, *a, **k):
    """(value, None) or (None, exception)"""
    signal.alarm(20)
    try:
        return fn(*a, **k), None
    except OpTimeout as e:
        return None, e
    except Exception as e:
        return None, e
    finally:
        signal.alarm(0)


def exc_obs(e):
    from hwtypes.bit_vector_abc import InconsistentSizeError
    from hwtypes.adt_meta import ReservedNameError
    for c, n in ((InconsistentSizeError, "InconsistentSizeError"), (TypeError, "TypeError"), (IndexError, "IndexError"),
                 (KeyError, "KeyError"), (AttributeError, "AttributeError"), (NotImplementedError, "NotImplementedError"),
                 (ZeroDivisionError, "ZeroDivisionError"), (ValueError, "ValueError"),
                 (ReservedNameError, "ReservedNameError")):
        if isinstance(e, c):
            return {"k": "exc", "c": n}
    return {"k": "exc", "c": "other " + type(e).__name__}


def bits_of(v, w):
    """little endian bits of a natural number, at least w of them"""
    v = int(v)
    n = max(w, v.bit_length())
    return [(v >> i) & 1 for i in range(n)]


def int_obs(v, k="int"):
    v = int(v)
    return {"k": k, "s": int(v < 0), "b": bits_of(abs(v), 0)}


class Writer:
    def __init__(self, outdir, shards=1 if "VERIF_PART" in os.environ else 8, prefix="t"):
        self.files = [open(os.path.join(outdir, f"{prefix}{i}.ndjson"), "w") for i in range(shards)]
        self.n = [0] * shards
        self.cost = [0.0] * shards
        self.cur = 0
        self.seen_ops = {}

    def pick(self):
        """start of a history: continue in the least loaded shard"""
        self.cur = min(range(len(self.files)), key=lambda i: self.cost[i])

    def emit(self, e, cost=1.0):
        self.files[self.cur].write(json.dumps(e, separators=(",", ":")) + "\n")
        self.n[self.cur] += 1
        self.cost[self.cur] += cost

    def stateless(self, e, cost=1.0, canary=True):
        """a self-contained event; the first of each operation is repeated with
        a corrupted result, which the specification has to reject"""
        self.pick()
        self.emit(e, cost)
        key = (e["op"], e.get("o"), e["r"].get("k") if isinstance(e.get("r"), dict) else None)
        if canary and "r" in e and key not in self.seen_ops:
            self.seen_ops[key] = 1
            c = copy.deepcopy(e)
            c["r"] = corrupt(e["r"])
            c["canary"] = True
            c.pop("rc", None)
            self.emit(c, cost)

    def close(self):
        for f, n in zip(self.files, self.n):
            f.close()
            if n == 0:
                os.unlink(f.name)


def corrupt(o):
    o = copy.deepcopy(o)
    k = o.get("k")
    if k in ("bv", "seq") and (o.get("b") or o.get("e")):
        f = "b" if k == "bv" else "e"
        o[f][len(o[f]) // 2] ^= 1
    elif k in ("bit", "bool"):
        o["b"] ^= 1
    elif k in ("int", "obj", "repr", "zint"):
        o["b"] = o["b"] + [1]
    elif k == "tup" and o["e"]:
        o["e"][-1] = corrupt(o["e"][-1])
    elif k == "exc":
        o["c"] = "none raised"
    else:
        o = {"k": "corrupted"}
    return o


def main(fn):
    """fn(outdir): runs a driver.  The drivers run to completion on a correct
    library, whose every result and exception they record; one that stops got
    from the library what no specified operation gives (an exception where
    none is due, or a value its own code cannot use), which is an observation
    too.  What the environment does (memory, files, imports) is none."""
    out = sys.argv[1]
    try:
        fn(out)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any("/hwtypes/" in (f.filename or "") for f in tb) or not isinstance(e, (OSError, MemoryError, ImportError, SyntaxError, KeyboardInterrupt, SystemExit)):
            with open(os.path.join(out, "crash.json"), "w") as f:
                json.dump({"error": repr(e)[:500], "tb": traceback.format_exc()[-3000:]}, f)
            return
        raise
