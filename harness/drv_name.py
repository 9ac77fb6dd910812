"""Histories of naming, dropping and collecting symbolic values (C13)."""
import gc
import z3
from dlib import *
from hwtypes import SMTBit, SMTBitVector, SMTUIntVector, SMTSIntVector, SMTInt, SMTFPVector, RoundingMode
from hwtypes import z3Bit, z3BitVector, z3UIntVector, z3SIntVector

R = random.Random(SEED)
FPs = [SMTFPVector[e, m, RoundingMode.RNE, True] for e, m in ((3, 4), (5, 10))]
SMT = [("bool", SMTBit), ("int", SMTInt), ("bool", SMTBit)] + [(f"bv{w}", T[w]) for w in (1, 4, 8, 16, 64) for T in (SMTBitVector, SMTUIntVector, SMTSIntVector)] \
    + [(f"bv{T.size}", T) for T in FPs] * 3
Z3 = [("bool", z3Bit)] * 3 + [(f"bv{w}", T[w]) for w in (1, 4, 8, 16) for T in (z3BitVector, z3UIntVector, z3SIntVector)]


def var(v):
    if isinstance(v, SMTFPVector):
        v = v.reinterpret_as_bv()
    x = v.value
    if isinstance(x, z3.ExprRef):
        return {"k": "var", "n": x.decl().name()} if z3.is_const(x) else {"k": "not a variable"}
    return {"k": "var", "n": x.symbol_name()} if x.is_symbol() else {"k": "not a variable"}


def constant(T):
    return T(R.randrange(2))


class Run:
    def __init__(self, W, k, fam):
        self.W, self.k, self.fam = W, k, fam
        pool = SMT if fam == "smt" else Z3
        self.kinds = {c: pool[(k * 7 + j * 5) % len(pool)] if k % 3 else R.choice(pool) for j, c in enumerate("ABCD")}
        if k % 4 == 0:      # same sort everywhere
            self.kinds = {c: self.kinds["A"] for c in "ABCD"}
        self.objs, self.limbo, self.serial = {}, False, 0
        T = SMTBit if fam == "smt" else z3Bit
        self.auto_n = 0
        for _ in range(3):      # past every name asked for before
            n = var(T())["n"]
            if n.startswith("V_") and n[2:].isdigit():
                self.auto_n = int(n[2:])

    def name(self, n):
        if n.startswith("V+"):
            return f"V_{self.auto_n + int(n[2:])}"
        return f"{n[0]}{self.k}{n[1:]}"

    def post(self):
        return [{"id": s, "n": var(v).get("n", "?")} for s, v in self.objs.values()]

    def emit(self, e):
        self.W.emit({"fam": self.fam, **e, "post": self.post()}, 1 + len(self.objs) / 4)

    def drop(self, i, cycle=False):
        s, v = self.objs.pop(i)
        if cycle:
            v = [v]
            v.append(v)
            del v
            self.limbo = True
        else:
            del v
        if not self.limbo:
            gc.collect()
        self.emit({"op": "drop", "x": s, "collected": not self.limbo})

    def create(self, st, op, kw, more):
        sort, T = self.kinds[st["kind"]] if "kind" in st else (None, None)
        self.serial += 1
        if op == "copy":
            src = self.objs[st["x"]][1]
            T, sort = type(src), ""
            v, exc = call(lambda: T(src))
            del src
        else:
            f, warned = warns(lambda: T(**kw))
            v, exc = call(f)
            more = {**more, "warn": warned()}
        r = exc_obs(exc) if exc else var(v)
        del exc
        if v is not None:
            if st["id"] in self.objs:
                self.drop(st["id"])
            self.objs[st["id"]] = (self.serial, v)
            if op == "auto" and r["k"] == "var" and r["n"].startswith("V_") and r["n"][2:].isdigit():
                self.auto_n = int(r["n"][2:])
        self.emit({"op": op, "o": T.__name__.split("[")[0], "sort": sort, "id": self.serial, "r": r, **more})

    def step(self, st):
        a = st["a"]
        if a in ("auto", "name", "prefix"):
            if "id" in st and st["id"] in self.objs:
                self.drop(st["id"])
            T = self.kinds[st["kind"]][1]
            if a == "prefix" and (self.fam != "smt" or issubclass(T, SMTFPVector)):
                a = "auto"
            if a == "auto":
                self.create(st, a, {}, {})
            else:
                n = self.name(st["name"])
                self.create(st, a, {a: n}, {"name": n})
        elif a == "copy":
            if st["x"] in self.objs:
                if st["id"] in self.objs:
                    self.drop(st["id"])
                if st["x"] in self.objs:
                    self.create(st, a, {}, {"x": self.objs[st["x"]][0]})
        elif a in ("drop", "cycle"):
            if st["x"] in self.objs:
                self.drop(st["x"], a == "cycle")
        elif a == "gc":
            gc.collect()
            self.limbo = False
            self.emit({"op": "gc"})
        elif a == "bad":
            sort, T = self.kinds[st["kind"]]
            n = self.name(st["name"])
            form = st["form"]
            nopre = self.fam != "smt" or issubclass(T, SMTFPVector)
            if nopre and "prefix" in form:
                form = "named constant"
            f = {"named constant": lambda: T(R.choice([0, 1, constant(T)]), name=n),
                 "prefixed constant": lambda: T(R.choice([0, 1, constant(T)]), prefix=n),
                 "name and prefix": lambda: T(name=n, prefix=R.choice([n, "q"])),
                 "name not a string": lambda: T(name=R.choice([1, None, b"a", 0, True, ("a",)]))}[form]
            v, exc = call(f)
            r = exc_obs(exc) if exc else {"k": "made"}
            del v, exc
            self.emit({"op": "bad", "o": form, "form": form, "name": n, "r": r})

    def run(self, prog):
        self.W.pick()
        self.W.emit({"op": "reset"})
        for st in prog:
            self.step(st)
        self.objs.clear()
        gc.collect()


def canaries(W):
    """histories that break each clause: the specification has to reject them"""
    W.pick()
    v = lambda n: {"k": "var", "n": n}
    base = {"fam": "smt", "sort": "bool", "post": []}
    E = [{"op": "reset"}, {**base, "op": "auto", "id": 1, "r": v("V_1")}, {**base, "op": "name", "name": "a", "id": 2, "r": v("a")},
         {**base, "op": "auto", "id": 3, "r": v("V_1"), "canary": True},
         {**base, "op": "prefix", "name": "p", "id": 4, "r": v("a"), "canary": True},
         {**base, "op": "prefix", "name": "p", "id": 5, "r": v("b"), "canary": True},
         {**base, "op": "name", "name": "a", "id": 6, "r": v("a"), "canary": True},
         {**base, "op": "name", "name": "c", "id": 6, "r": exc_obs(ValueError()), "canary": True},
         {**base, "op": "copy", "x": 2, "id": 7, "r": v("V_7"), "canary": True},
         {**base, "op": "bad", "form": "name and prefix", "r": {"k": "made"}, "canary": True},
         {**base, "op": "gc", "post": [{"id": 2, "n": "V_1"}], "canary": True}]
    for e in E:
        W.emit(e)


def go(out):
    W = Writer(out)
    gc.collect()
    gc.freeze()
    gc.disable()
    k = 0
    for path in sys.argv[2:]:
        with open(path) as f:
            progs = [json.loads(x)["prog"] for x in f if x.strip()]
        if len(progs) > 2500 and not THOROUGH:
            progs = R.sample(progs, 2500)
        for p in progs:
            k += 1
            Run(W, k, "z3" if k % 3 == 0 else "smt").run(p)
    canaries(W)
    W.close()


if __name__ == "__main__":
    main(go)
