"""Symbolic floating point values (C19)."""
import gc
from dlib import *
from hwtypes import SMTFPVector, SMTBitVector, SMTBit, SMTInt, FPVector, BitVector, RoundingMode

R = random.Random(SEED)
IDX = [(e, m, mode, ieee) for e, m in ((3, 4), (5, 10), (2, 1), (4, 3)) for mode in RoundingMode for ieee in (True, False)]
PY = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "rem": lambda a, b: a % b,
      "neg": lambda a: -a, "abs": abs, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
      "leq": lambda a, b: a <= b, "gt": lambda a, b: a > b, "geq": lambda a, b: a >= b}


def name(idx):
    return f"[{idx[0]},{idx[1]},{idx[2].name},{int(idx[3])}]"


class D0(SMTFPVector):
    pass


def type_pools():
    """types of one name but different definitions, and of one format but different classes"""
    pools = []
    for e, m in ((3, 4), (5, 10), (2, 1)):
        a, b, c, d = (e, m, RoundingMode.RNE, True), (e, m, RoundingMode.RTZ, True), (e, m, RoundingMode.RNE, False), (m, e, RoundingMode.RNE, True)
        P = {}
        for i, idx in enumerate((a, b, c, d, (e, m + 1, RoundingMode.RNE, True))):
            P[len(P) + 1] = {"id": "SMTFPVector" + name(idx), "get": lambda idx=idx: SMTFPVector[idx], "again": True, "e": idx[0], "m": idx[1]}
        for i, idx in enumerate((a, a, d)):
            cls = type(SMTFPVector)("Same", (SMTFPVector[idx],), {})
            P[len(P) + 1] = {"id": f"Same#{len(pools)}.{i}", "get": lambda cls=cls: cls, "e": idx[0], "m": idx[1]}
        cls = type(SMTFPVector)("Same", (SMTFPVector,), {}) if len(pools) != 1 else D0
        P[len(P) + 1] = {"id": f"Unbound#{len(pools)}" + name(a), "get": lambda cls=cls, a=a: cls[a], "again": True, "e": e, "m": m}
        pools.append(P)
    return pools


POOLS = type_pools()


def f_of(P, t):
    return {k: P[t][k] for k in ("id", "e", "m")}


def node(v, P=None):
    """the term of a value: function symbol, operand identities, own identity"""
    if isinstance(v, BaseException):
        return exc_obs(v)
    o = {"neg": 0, "fn": "", "sort": "other"}
    if isinstance(v, SMTFPVector):
        x = v.reinterpret_as_bv().value
        t = next((q["id"] for q in P.values() if type(v) is q["get"]()), "?")
        o.update(k="fp", t=t, w=v.size)
    elif isinstance(v, SMTBitVector):
        x = v.value
        o.update(k="bv", w=v.size)
    elif isinstance(v, SMTBit):
        x = v.value
        o.update(k="bit", w=0)
        if x.is_not():
            o["neg"] = 1
            x = x.arg(0)
    else:
        return {"k": "other " + type(v).__name__}
    if o["k"] != "bit":
        if x.get_type().width != o["w"]:
            return {"k": f"width {x.get_type().width} in a type of width {o['w']}"}
    o["id"] = x.node_id()
    if x.is_function_application():
        o["fn"] = f"{x.function_name().node_id()}:{x.function_name().symbol_name()}"
        o["args"] = [y.node_id() for y in x.args()]
        o["sort"] = "app"
    elif x.is_symbol():
        o["sort"] = "var"
    elif x.is_bv_constant():
        o["sort"] = "const"
        o["b"] = bits_of(x.constant_value(), o["w"])
    return o


class Run:
    def __init__(self, W, k):
        self.W, self.k = W, k
        self.P = POOLS[k % len(POOLS)]
        self.regs = {}
        self.n = 0

    def post(self):
        return [{"i": i, "t": node(v, self.P).get("id", -1)} for i, (t, v) in self.regs.items()]

    def emit(self, e, v=None, t=None):
        if "dst" in e and e["r"].get("k") == "fp" and v is not None:
            self.regs[e["dst"]] = (t, v)
        elif "dst" in e:
            e.pop("dst")
        self.W.emit(e, 1 + len(e.get("post", ())) / 4)

    def app(self, o, x, dst=None, n=None, via=None):
        t, _ = self.regs[x[0]]
        a = [self.regs[i][1] for i in x]
        m = o if n is not None else "fp_" + o
        via = via or R.choice(["method", "operator"])
        if o == "ne" or via == "operator" and o in PY:
            v, e = call(PY[o], *a)
        elif n is not None:
            v, e = call(getattr(a[0], m), R.choice([n, n, K(n)]))
        else:
            v, e = call(getattr(a[0], m), *a[1:])
        r = node(v if e is None else e, self.P)
        ev = {"op": "app", "o": o, "f": f_of(self.P, t), "x": x, "r": r}
        if n is not None:
            ev["n"] = n
        if dst is not None:
            ev["dst"] = dst
        if R.randrange(3) == 0 and dst is None:
            ev["post"] = self.post()
        self.emit(ev, v, t)
        return ev

    def step(self, st):
        a, P = st["a"], self.P
        if a == "end":
            return
        if a in ("var", "named", "const"):
            T, f = P[st["t"]]["get"](), f_of(P, st["t"])
            w = 1 + f["e"] + f["m"]
            ev = {"op": a, "o": a, "f": f, "dst": st["dst"]}
            if a == "const":
                b = R.choice([0, 1, (1 << w) - 1, 1 << (w - 1), R.getrandbits(w)])
                ev["b"] = bits_of(b, w)
                v, e = call(T, pyint(b))
            elif a == "var":
                v, e = call(T)
            else:
                self.n += 1
                v, e = call(lambda: T(name=f"fp{self.k}_{self.n}"))
            ev["r"] = node(v if e is None else e, P)
            return self.emit(ev, v, st["t"])
        if a == "drop":
            for i in [i for i, (t, _) in self.regs.items() if t == st["t"]]:
                del self.regs[i]
            gc.collect()
            return
        x = st["x"]
        if any(i not in self.regs for i in x) or len({self.regs[i][0] for i in x}) > 1:
            return
        t, v0 = self.regs[x[0]]
        f = f_of(P, t)
        if a == "op":
            self.app(st["o"], x, st.get("dst"))
        elif a == "conv":
            self.app(st["o"], x, None, st["n"])
        elif a == "reint":
            bv, e = call(v0.reinterpret_as_bv)
            self.emit({"op": "asbv", "o": "asbv", "f": f, "x": x, "r": node(bv if e is None else e, P)})
            if e is None:
                T = P[st["t"]]["get"]()
                v, e = call(T.reinterpret_from_bv, bv)
                self.emit({"op": "frombv", "o": "frombv", "f": f_of(P, st["t"]), "w": bv.size, "x": x, "dst": st["dst"],
                           "r": node(v if e is None else e, P)}, v, st["t"])
        elif a == "copy":
            v, e = call(type(v0), v0)
            self.emit({"op": "copy", "o": "copy", "f": f, "x": x, "dst": st["dst"], "r": node(v if e is None else e, P)}, v, t)
        elif a == "arith":
            bv = v0.reinterpret_as_bv() + self.regs[x[1]][1].reinterpret_as_bv()
            v, e = call(type(v0).reinterpret_from_bv, bv)
            self.emit({"op": "foreign", "o": "foreign", "f": f, "id": bv.value.node_id(), "dst": st["dst"], "r": node(v if e is None else e, P)}, v, t)
        elif a == "bad":
            T = type(v0)
            other = [P[q]["get"]() for q in P if 1 + P[q]["e"] + P[q]["m"] != v0.size]
            y = R.choice(["1.0", 1.5, None, [1], (0, 1), object(), b"1", SMTBit(1), SMTInt(1), BitVector[v0.size](1), FPVector[3, 4, RoundingMode.RNE, True](1),
                          R.choice(other)(), SMTBitVector[v0.size + 1]().value, SMTBit().value])
            v, e = call(T, y)
            self.emit({"op": "refused", "o": type(y).__name__.split("[")[0], "f": f, "y": repr(y)[:40], "r": node(v if e is None else e, P)})

    def run(self, prog):
        self.W.pick()
        self.W.emit({"op": "reset"})
        for st in prog:
            self.step(st)
        self.regs.clear()


def every(W, k):
    """all operations of all types on the same operands, twice"""
    r = Run(W, k)
    W.pick()
    W.emit({"op": "reset"})
    for t in r.P:
        for i in (1, 2, 3):
            r.step({"a": "var", "t": t, "dst": 3 * t + i})
    for rep in range(2):
        for t in R.sample(list(r.P), len(r.P)):
            x = [3 * t + i for i in (1, 2, 3)]
            for via in ("method", "operator"):
                for o in ("add", "sub", "mul", "div", "rem", "min", "max", "eq", "ne", "lt", "leq", "gt", "geq"):
                    for p in (x[:2], x[1::-1], [x[0], x[0]]):
                        r.app(o, p, via=via)
                for o in ("sqrt", "round_to_integral", "abs", "neg", "is_normal", "is_subnormal", "is_zero", "is_infinite", "is_NaN", "is_negative", "is_positive"):
                    r.app(o, x[:1], via=via)
            r.app("fma", x)
            r.app("fma", x[::-1])
            for n in (1, 2, 7, 8, 16, 64):
                r.app("to_ubv", x[:1], n=n)
                r.app("to_sbv", x[:1], n=n)


def canaries(W):
    W.pick()
    f = {"id": "canary", "e": 1, "m": 1}
    v = {"k": "fp", "t": "canary", "w": 3, "id": 1, "fn": "", "neg": 0, "sort": "var"}
    ap = {**v, "fn": "f", "id": 2, "args": [1, 1], "sort": "app"}
    W.emit({"op": "reset"})
    W.emit({"op": "var", "f": f, "dst": 1, "r": v})
    W.emit({"op": "app", "o": "add", "f": f, "x": [1, 1], "r": ap})
    for r in ({**ap, "fn": "g"}, {**ap, "args": [1, 2]}, {**ap, "id": 3}, {**ap, "w": 4}, {**ap, "neg": 1}, {**ap, "t": "?"}, exc_obs(TypeError())):
        W.emit({"op": "app", "o": "add", "f": f, "x": [1, 1], "r": r, "canary": True})
    W.emit({"op": "app", "o": "sub", "f": f, "x": [1, 1], "r": ap, "canary": True})
    W.emit({"op": "const", "f": f, "dst": 1, "b": [0, 0, 1], "r": {**v, "sort": "const", "b": [1, 0, 1]}, "canary": True})
    W.emit({"op": "refused", "f": f, "r": v, "canary": True})


def go(out):
    W = Writer(out)
    for k in range(len(POOLS)):
        every(W, k)
    k = 0
    for path in sys.argv[2:]:
        with open(path) as fh:
            for line in fh:
                if line.strip():
                    k += 1
                    Run(W, k).run(json.loads(line)["prog"])
    canaries(W)
    W.close()


if __name__ == "__main__":
    main(go)
