"""Selections (C09): programs of spec/IteMachine.tla, tuples, protocol objects."""
import itertools as it
from bvexec import *
from bvobs import sbv

R = random.Random(SEED)
progs = sys.argv[2:]


def ty(be, T):
    c = type_code(be, T)
    return c if not c.startswith("?") else "poly?"


def user_bits(B):
    class P(B): pass

    class Q(P):
        def __and__(self, other):
            return type(self)(True)
    return {"P": P, "Q": Q}


UB = {be: user_bits(BIT[be]) for be in ("c", "s")}


def iobs(x, be):
    be = "s" if isinstance(x, (sbv.SMTBit, sbv.SMTBitVector)) else "c" if isinstance(x, (ht.Bit, ht.BitVector)) else be
    if isinstance(x, tuple):
        return {"k": "tup", "e": [iobs(y, be) for y in x]} if type(x) is tuple else {"k": "tuple?"}
    if type(x) in PROTO[be].values():
        n = [k for k, v in PROTO[be].items() if v is type(x)][0]
        return {"k": "proto", "c": n, "v": iobs(x._to_bitvector_(), be)}
    if isinstance(x, BIT[be]):
        if type(x) is BIT[be]:
            return obs(x)
        try:
            v = lambda y: int(bool(y)) if be == "c" else int(smt_const(y.value))
            names = [n for n, U in UB[be].items() if type(x) is U]
            return {"k": "ubit" if names else "pbit", "be": be, "b": v(x), "c": (names or ["?"])[0], "and": v(x & BIT[be](0)),
                    "sup": [n for n, U in UB[be].items() if isinstance(x, U)]}
        except Exception as e:
            return {"k": "unobservable", "c": type(e).__name__}
    if isinstance(x, TYPES[be]["BV"]):
        try:
            v = x.as_uint() if be == "c" else smt_const(x.value)
            if v is None:
                return {"k": "symbolic"}
            T = type(x)
            if be == "s" and x.value.get_type().width != T.size:
                return {"k": "bv?"}
            return {"k": "bv", "be": be, "w": T.size, "b": bits_of(v, T.size), "t": ty(be, T),
                    "sup": [c for c, U in TYPES[be].items() if isinstance(x, U) and isinstance(x, U[T.size])] + ["Mixin"] * (isinstance(x, bvobs.Mixin) and x.marked() == 5)}
        except Exception as e:
            return {"k": "unobservable", "c": type(e).__name__}
    return obs(x)


def iresult(fn, be):
    v, e = call(fn)
    return (None, exc_obs(e)) if e is not None else (v, iobs(v, be))


def proto_class(T, name):
    class Meta(type):
        def _bitvector_t_(cls):
            return T

    class P(metaclass=Meta):
        def __init__(self, v):
            self._v = v

        @classmethod
        def _from_bitvector_(cls, bv):
            return cls(bv)

        def _to_bitvector_(self):
            return self._v
    P.__name__ = name
    return P


PROTO = {be: {"A": proto_class(TYPES[be]["BV"][4], "A"), "B": proto_class(TYPES[be]["BV"][4], "B"),
              "S": proto_class(TYPES[be]["SV"][3], "S"), "T": proto_class(BIT[be], "T")} for be in ("c", "s")}
for be in PROTO:     # a subclass is another class
    PROTO[be]["D"] = type(PROTO[be]["A"])("D", (PROTO[be]["A"],), {})


def halves(T):
    """objects that implement the protocol in part"""
    class Meta(type):
        def _bitvector_t_(cls):
            return T
    to, fr = (lambda self: T(1)), classmethod(lambda cls, bv: cls())
    return {"half to": Meta("HalfTo", (), {"_to_bitvector_": to})(), "half from": Meta("HalfFrom", (), {"_from_bitvector_": fr})(),
            "half type": Meta("HalfType", (), {})(), "half no type": type("NoType", (), {"_to_bitvector_": to, "_from_bitvector_": fr})()}


HALF = halves(ht.BitVector[4])
PT = {"D": ("BV", 4), "A": ("BV", 4), "B": ("BV", 4), "S": ("SV", 3), "T": None}


def ithunk(e, regs, be):
    def V(f):
        x = e[f]
        return regs[x["i"]] if x["k"] == "reg" else real(be, x)
    if e["op"] == "ite":
        z, x, y = V("z"), V("x"), V("y")
        return lambda: z.ite(x, y)
    if e["op"] == "double":
        x = V("x")
        return lambda: x.concat(x)
    return thunk(e, regs, be)


def program(W, prog, be, sym, cost):
    W.pick()
    W.emit({"op": "reset"}, 0)
    bvobs.ENV_S.clear()
    regs = {}
    try:
        for e in prog:
            if e["op"] == "load":
                x = {**e["x"], "be": be}
                v = fresh(be, x) if sym else real(be, x)
                e = {**e, "x": x}
                r = iobs(v, be)
            else:
                v, r = iresult(ithunk(e, regs, be), be)
            e = {**e, "be": be, "r": r}
            if r["k"] not in ("bv", "bit"):
                W.emit({**e, "post": []}, cost)
                return
            regs[e["d"]] = v
            if e["op"] != "load":
                e["post"] = [{"i": i, "r": iobs(regs[i], be)} for i in sorted(regs) if i != e["d"]] if e["op"] == "ite" else []
            W.emit(e, cost)
    finally:
        bvobs.ENV_S.clear()


# ---------------------------------------------------------------------------
def lit(be, kind):
    """a random literal of a kind: 'bit', (t, w), ('proto', c), [kinds...]"""
    if kind == "bit":
        return {"k": "bit", "be": be, "b": R.randrange(2)}
    if kind[:1] == ("ubit",):
        b = R.randrange(2)
        return {"k": "ubit", "be": be, "b": b, "c": kind[1]}
    if isinstance(kind, list):
        return {"k": "tup", "e": [lit(be, k) for k in kind]}
    if kind[0] == "proto":
        p = PT[kind[1]]
        return {"k": "proto", "c": kind[1], "v": lit(be, "bit" if p is None else p)}
    return bv_lit(be, kind[0], kind[1], R.getrandbits(kind[1]))


def build(be, x, sym):
    be = x.get("be", be)
    sym = sym and be == "s"
    if x["k"] == "tup":
        return tuple(build(be, y, sym) for y in x["e"])
    if x["k"] == "proto":
        return PROTO[be][x["c"]](build(be, x["v"], sym))
    if x["k"] == "py":
        return {"int": 1, "none": None, "str": "a", "list": [1], "bool": True, "float": 1.5, **HALF}[x["c"]]
    if x["k"] == "ubit":
        T = UB[be][x["c"]]
        if not sym:
            return T(x["b"])
        v = T()
        bvobs.ENV_S[v.value] = smt.Bool(bool(x["b"]))
        return v
    return fresh(be, x) if sym else real(be, x)


def one(W, be, z, x, y, sym, o):
    bvobs.ENV_S.clear()
    b, X, Y = build(z["be"], z, sym and z["be"] == "s"), build(be, x, sym), build(be, y, sym)
    v, r = iresult(lambda: b.ite(X, Y), be)
    ax, ay = (l if l["k"] == "py" else safe(v_, be) for l, v_ in ((x, X), (y, Y)))
    W.stateless({"op": "one", "o": o, "be": be, "sym": sym, "z": z, "x": x, "y": y, "r": r, "ax": ax, "ay": ay})
    # the result is its own: changing it leaves the branches alone
    if v is not None and isinstance(v, TYPES[be]["BV"]) and be == "c" and v.size:
        call(v.__setitem__, 0, 1 - int(v[0]))
        W.stateless({"op": "one", "o": o + " changed", "be": be, "sym": sym, "z": z, "x": x, "y": y, "r": r, "ax": iobs(X, be), "ay": iobs(Y, be)}, canary=False)
    bvobs.ENV_S.clear()


def safe(v, be):
    if isinstance(v, tuple):
        return {"k": "tup", "e": [safe(x, be) for x in v]}
    if v is None or isinstance(v, (int, str, list, float)):
        return {"k": "py", "c": {type(None): "none", int: "int", str: "str", list: "list", bool: "bool", float: "float"}[type(v)]}
    if any(v is h for h in HALF.values()):
        return {"k": "py", "c": [n for n, h in HALF.items() if h is v][0]}
    return iobs(v, be)


def shape(d):
    k = R.randrange(10)
    if d and k < 4:
        return [shape(d - 1) for _ in range(R.randrange(0, 4))]
    if k < 6:
        return R.choice(["bit", "bit", ("ubit", "P"), ("ubit", "Q")])
    if k < 9:
        return (R.choice(["BV", "UV", "SV", "NV", "MB", "MU", "MS"]), R.choice([1, 2, 3, 4, 8, 17]))
    return ("proto", R.choice("ABSTD"))


def vary(s):
    """the same shape, vector types changed"""
    if isinstance(s, list):
        return [vary(x) for x in s]
    if (s == "bit" or s[0] == "ubit") and R.randrange(2):
        return R.choice(["bit", ("ubit", "P"), ("ubit", "Q")])
    if s != "bit" and s[0] != "ubit" and s[0] != "proto" and R.randrange(2):
        return (R.choice(["BV", "UV", "SV", "NV", "MB", "MU", "MS"]), s[1])
    return s


def spoil(s):
    """a shape that cannot be reconciled with s"""
    if isinstance(s, list) and s and R.randrange(3):
        i = R.randrange(len(s))
        return s[:i] + [spoil(s[i])] + s[i + 1:]
    if isinstance(s, list):
        return R.choice([s + ["bit"], "bit", ("BV", 3)] + ([s[:-1]] if s else []))
    if s == "bit" or s[0] == "ubit":
        return R.choice([("BV", 1), [], ["bit"], ("proto", "T")])
    if s[0] == "proto":
        return R.choice([("proto", "B" if s[1] != "B" else "A"), ("proto", "D" if s[1] != "D" else "A"), ("BV", 4), "bit"])
    return R.choice([(s[0], s[1] + 1), (R.choice(["BV", "UV", "SV"]), s[1] + R.randint(1, 4)), "bit", [s], ("proto", "A")])


def singles(W):
    n = 4000 if THOROUGH else 700
    for i in range(n):
        be = "cs"[i % 2]
        s = shape(3)
        t = vary(s) if R.randrange(4) else spoil(s)
        z = lit(be, R.choice(["bit", "bit", (R.choice(["BV", "UV", "SV"]), R.choice([1, 2, 3, 8, 33]))]))
        if z["k"] == "bv" and R.randrange(3):       # few bits set
            z["b"] = [0] * len(z["b"])
            if R.randrange(2):
                z["b"][R.randrange(len(z["b"]))] = 1
        sym = be == "s" and R.randrange(3) > 0
        one(W, be, z, lit(be, s), lit(be, t), sym, "bit" if z["k"] == "bit" else "vector")
    # every pair of leaf kinds
    kinds = ["bit", ("ubit", "P"), ("ubit", "Q"), ("BV", 2), ("UV", 2), ("SV", 2), ("NV", 2), ("MB", 2), ("MU", 2), ("MS", 2), ("BV", 3), ("SV", 3), ("UV", 1), ("proto", "A"), ("proto", "B"), ("proto", "D"), ("proto", "S"),
             ("proto", "T"), [], ["bit"], [("BV", 2)], [("SV", 2), "bit"], [[("UV", 2)], "bit"]]
    for be in "cs":
        for p, q in it.product(kinds, repeat=2):
            for b in (0, 1):
                one(W, be, {"k": "bit", "be": be, "b": b}, lit(be, p), lit(be, q), be == "s" and b == 1, "pair")
        py = [{"k": "py", "c": c} for c in ("int", "none", "str", "list", "bool", "float", *HALF)]
        for j in py:
            for k in ["bit", ("BV", 2), ("proto", "A"), ["bit"]] + py:
                k = k if isinstance(k, dict) else lit(be, k)
                z = {"k": "bit", "be": be, "b": R.randrange(2)}
                one(W, be, z, j, k, False, "py")
                one(W, be, z, k, j, False, "py")
                one(W, be, z, {"k": "tup", "e": [j]}, {"k": "tup", "e": [k]}, False, "py")
    # families: a concrete selection of symbolic values; branches of two families
    for i in range(n // 4):
        s = shape(2)
        t = R.choice([s, s, vary(s), spoil(s)])
        z = lit("c", R.choice(["bit", ("BV", 2), ("UV", 1)]))
        one(W, "s", z, lit("s", s), lit("s", t), R.randrange(3) > 0, "concrete selection")
    for p, q in it.product(["bit", ("BV", 2), ("UV", 2), ("SV", 2), ["bit", ("UV", 1)]], repeat=2):
        for be, zb in (("c", "s"), ("s", "s"), ("c", "c"), ("s", "c")):
            z = lit(zb, R.choice(["bit", ("UV", 2)]))
            other = "s" if be == "c" else "c"
            one(W, be, z, lit(be, p), lit(other, q), R.randrange(2), "two families")
            if be == "c" and zb == "s" and p != q and len(p) == len(q) == 2 and p[0] != "bit" != q[0]:
                one(W, be, z, lit(be, p), lit(be, q), False, "symbolic selection of two types")
    # every select value of small vectors
    for be in "cs":
        for w in (1, 2, 3, 4, 5):
            for v in range(1 << w):
                for t in ("BV", "UV", "SV"):
                    one(W, be, bv_lit(be, t, w, v), lit(be, ("UV", 3)), lit(be, R.choice([("SV", 3), ("UV", 3)])), be == "s" and v % 2, "vector")


def go(out):
    W = Writer(out)
    for k, path in enumerate(progs):
        with open(path) as f:
            ps = [json.loads(x)["prog"] for x in f if x.strip()]
        if k == 0 and not THOROUGH:
            ps = R.sample(ps, min(len(ps), 3000))
        for i, p in enumerate(ps):
            program(W, p, "c", False, 1)
            if k or i % 2 == 0 or THOROUGH:
                program(W, p, "s", True, 1)
            if k:
                program(W, p, "s", False, 1)
    singles(W)
    W.close()


if __name__ == "__main__":
    main(go)
