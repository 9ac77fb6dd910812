"""Floating point calls (C17, C18)."""
from fractions import Fraction
from math import copysign, isinf, isnan
from dlib import *
import random
import gmpy2
import hwtypes as ht
from hwtypes import FPVector, RoundingMode as RM, BitVector, SIntVector, Bit

R = random.Random(SEED)
MODES = ["RNE", "RNA", "RTP", "RTN", "RTZ"]
ARITH = ["add", "sub", "mul", "div", "rem"]
OPER = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y, "rem": lambda x, y: x % y,
        "eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y, "leq": lambda x, y: x <= y,
        "gt": lambda x, y: x > y, "geq": lambda x, y: x >= y}
CMPS = ["eq", "ne", "lt", "leq", "gt", "geq"]
PREDS = ["is_zero", "is_subnormal", "is_normal", "is_infinite", "is_NaN", "is_negative", "is_positive"]


def fmt(e, m, mode, ieee):
    return {"e": e, "m": m, "mode": mode, "ieee": int(ieee)}


def typ(f):
    return FPVector[f["e"], f["m"], RM[f["mode"]], bool(f["ieee"])]


def width(f):
    return 1 + f["e"] + f["m"]


def code(f):
    return f"{f['e']},{f['m']},{f['mode']},{f['ieee']}"


def pat(x):
    return [int(b) for b in x.reinterpret_as_bv().bits()]


def obs(v, e):
    if e is not None:
        return exc_obs(e)
    if isinstance(v, FPVector):
        b, e = call(pat, v)
        if e is not None:
            return {"k": "unreadable", "x": repr(e)[:80]}
        T = type(v)
        return {"k": "fp", "f": fmt(T.exponent_size, T.mantissa_size, T.mode.name, T.ieee_compliance), "b": b}
    if isinstance(v, Bit):
        return {"k": "bit", "b": int(v)}
    if isinstance(v, ht.AbstractBitVector):
        return {"k": "bv", "t": "SV" if type(v) is SIntVector[v.size] else "BV" if type(v) is BitVector[v.size] else "?", "w": v.size, "b": bits_of(v.as_uint(), v.size)}
    return {"k": "other " + type(v).__name__}


def val(f, b):
    return {"k": "val", "f": f, "b": b}


def frombits(T, b):
    return T.reinterpret_from_bv(BitVector[len(b)](b))


def bits(n, w):
    return [(n >> i) & 1 for i in range(w)]


def pattern(f, s, ex, man):
    return bits(man | ex << f["m"] | s << (f["e"] + f["m"]), width(f))


def all_patterns(f):
    n = width(f)
    out = [bits(i, n) for i in range(1 << n)]
    return [b for b in out if canonical(f, b)]


def canonical(f, b):
    """patterns that stand for themselves: one NaN, and none without compliance"""
    m, e = f["m"], f["e"]
    man, ex = b[:m], b[m:m + e]
    if all(ex) and any(man):
        return f["ieee"] and sum(man) == man[0] == 1 and b[-1] == 0
    if not any(ex) and any(man):
        return f["ieee"]
    return True


def some_pattern(f, near=None, spread=3):
    m, e = f["m"], f["e"]
    top = (1 << e) - 1
    k = R.randrange(10)
    s = R.randrange(2)
    if k == 0:
        ex, man = R.choice([(0, 0), (0, 0), (top, 0), (top, 0), (top, 1), (1, 0), (top - 1, (1 << m) - 1)])
        if ex == top and man:
            s = 0
    elif k == 1:
        ex, man = 0, R.choice([1, (1 << m) - 1, R.randrange(1 << m)])
    elif k == 2:
        ex, man = R.choice([1, top - 1, max(1, top // 2)]), R.choice([0, 1, (1 << m) - 1, R.randrange(1 << m)])
    else:
        c = near if near is not None else top // 2
        ex = min(max(c + R.randint(-spread, spread), 0 if R.randrange(3) == 0 else 1), top - 1)
        man = R.choice([R.randrange(1 << m), R.randrange(1 << m), R.randrange(1 << m), 0, 1, (1 << m) - 1, 1 << R.randrange(m), (1 << m) - 1 ^ (1 << R.randrange(m))])
    if e == 1 and ex == top:
        man = man and 1
        s = 0 if man else s
    b = pattern(f, s, ex, man)
    return b if canonical(f, b) else pattern(f, s, 1 if top > 1 else top, 0)


def rat(x):
    x = Fraction(x)
    if x == 0:
        return {"k": "zero", "s": 0}
    return {"k": "rat", "s": int(x < 0), "n": bits_of(abs(x.numerator), 0), "d": bits_of(x.denominator, 0)}


def from_float(x):
    if isnan(x):
        return {"k": "nan"}
    if isinf(x):
        return {"k": "inf", "s": int(x < 0)}
    if x == 0:
        return {"k": "zero", "s": int(copysign(1, x) < 0)}
    return rat(Fraction(x))


def scale(f):
    """a typical power of two, often at the ends of the range"""
    bias = (1 << (f["e"] - 1)) - 1
    return R.choice([0, 0, 1, -1, bias, bias + 1, bias + 2, 1 - bias, 1 - bias - f["m"], -bias - f["m"] - 1, R.randint(-bias - f["m"] - 1, bias + 1)])


def Num(x, conv):
    """x in a class of its own, with the one conversion"""
    return type("Num", (), {conv: lambda self: x, "__repr__": lambda self: f"Num({x!r})"})()


def literal(f, how):
    """(python value, its exact value)"""
    m, k = f["m"], scale(f)
    k = max(-900, min(900, k))
    q = Fraction(R.randrange(1, 1 << (m + R.choice([1, 2, 3, 20])))) / (1 << (m + 1)) * Fraction(2) ** k
    q *= R.choice([1, -1])
    if how == "int":
        v = R.choice([0, 1, -1, 2, 3, 7, R.randrange(1 << min(m + 3, 60)), int(q), -R.randrange(1 << (m + 2)), 1 << R.randrange(2 * m + 2),
                      (1 << (m + 1)) + 1, (1 << (m + 2)) - 1, (1 << (m + 2)) + 2])
        v = R.choice([v, v, -v])
        return v, rat(v)
    if how == "float":
        try:
            v = R.choice([float(q), float(q), R.uniform(-4, 4), 0.0, -0.0, float("inf"), float("-inf"), float("nan"), 0.1, -1 / 3, 5e-324, 1.7e308])
        except OverflowError:
            v = 0.5
        return v, from_float(v)
    if how == "dec":
        d = R.randrange(10 ** R.choice([1, 2, 4, 12]))
        e10 = R.choice([0, 0, -1, -2, -3, int(k * 0.30103), -5, 2])
        t = R.choice(["", "-"]) + f"{d // 10}.{d % 10}e{e10}"
        if R.randrange(3) == 0:
            t = R.choice(["0.5", "0.1", "-0.1", "0.3", "1e-3", "123.456", "-2.5", "0.0625", "1", "-7"])
        x = Fraction(t)
        return t, ({"k": "zero", "s": int(t.startswith("-"))} if x == 0 else rat(x))
    if how == "frac":
        n, d = R.choice([(1, 3), (-2, 3), (1, 7), (5, 9), (q.numerator, R.choice([3, 5, 7, q.denominator])), (R.randrange(1, 1000), R.randrange(1, 1000))])
        t = f"{n}/{d}"
        return t, rat(Fraction(n, d))
    if how == "special":
        t, x = R.choice([("inf", {"k": "inf", "s": 0}), ("-inf", {"k": "inf", "s": 1}), ("nan", {"k": "nan"}), ("-0", {"k": "zero", "s": 1}),
                         ("0", {"k": "zero", "s": 0}), (float("-inf"), {"k": "inf", "s": 1})])
        return t, x
    if how == "like":       # numbers of other classes
        x = R.choice([literal(f, "float"), literal(f, "frac"), literal(f, "edge"), literal(f, "int")])[0]
        x = float("nan") if x != x else Fraction(x) if not isinstance(x, float) or abs(x) < 1e999 and x else x
        if isinstance(x, Fraction):
            p = R.choice([f["m"] + 1, m + 9, m + 60, 2, 400])
            v = gmpy2.mpfr(gmpy2.mpq(x), p)
            i = int(x) if abs(x) < 1 << 200 else 3
            return R.choice([(v, rat(Fraction(*map(int, v.as_integer_ratio())))), (gmpy2.mpq(x), rat(x)), (gmpy2.mpz(i), rat(i)), (bool(i & 1), rat(i & 1)),
                             (Num(i, "__int__"), rat(i)), (Num(float(v), "__float__"), from_float(float(v)))])
        return R.choice([(gmpy2.mpfr(x), from_float(x)), (Num(x, "__float__"), from_float(x))])
    if how == "edge":       # on and next to the midpoints around a value
        b = some_pattern(f)
        x = exact(f, b)
        if x is None or f["e"] > 12:
            return literal(f, "frac")
        u = Fraction(2) ** (max(int("".join(map(str, reversed(b[f["m"]:-1]))), 2), 1) - (1 << (f["e"] - 1)) + 1 - f["m"])
        x = x + R.choice([u / 2, -u / 2, u / 4, -u / 4, u / 2 + u / 4096, u / 2 - u / 4096, -u / 2 - u / 4096, u, 0])
        t = f"{x.numerator}/{x.denominator}" if x.denominator != 1 or R.randrange(2) else int(x)
        if x == 0:
            return 0, rat(0)
        return t, rat(x)
    raise ValueError(how)


def exact(f, b):
    m, e = f["m"], f["e"]
    man = sum(x << i for i, x in enumerate(b[:m]))
    ex = sum(x << i for i, x in enumerate(b[m:m + e]))
    bias = (1 << (e - 1)) - 1
    if ex == (1 << e) - 1:
        return None
    v = Fraction(man if ex == 0 else man + (1 << m)) * Fraction(2) ** (max(ex, 1) - bias - m)
    return -v if b[-1] else v


METH = {"rint": "fp_round_to_integral", "abs": "fp_abs", "neg": "fp_neg"}


def apply(o, xs, via):
    if o == "ne" or via == "operator" and o in OPER:
        return call(OPER[o], *xs)
    if via == "operator" and o == "abs":
        return call(abs, xs[0])
    if via == "operator" and o == "neg":
        return call(lambda v: -v, xs[0])
    return call(lambda: getattr(xs[0], METH.get(o, "fp_" + o))(*xs[1:]))


KIND = {**{o: "arith" for o in ARITH + ["fma", "sqrt", "rint"]}, **{o: "cmp" for o in CMPS}, "min": "minmax", "max": "minmax", "abs": "sign", "neg": "sign"}


DERIVED = {}


def derived(f):
    """the type, or one's own below it"""
    T = typ(f)
    if R.randrange(8):
        return T
    if code(f) not in DERIVED:
        DERIVED[code(f)] = type(T)("Mine", (T,), {"mine": lambda self: 1})
    return DERIVED[code(f)]


def event(o, f, bs, via=None):
    T = derived(f)
    xs = [frombits(T, b) for b in bs]
    via = via or R.choice(["method", "operator"])
    v, e = apply(o, xs, via)
    r = obs(v, e)
    if r["k"] == "fp" and type(v) is not type(xs[0]):
        r["k"] = "a number of another type"
    return {"op": KIND[o], "o": o, "via": via, "a": [val(f, pat(x)) for x in xs], "r": r}


def construct(W, f, v, x):
    r = obs(*call(typ(f), v))
    W.stateless({"op": "construct", "o": type(v).__name__, "f": f, "lit": repr(v)[:60], "src": x, "r": r}, 1)
    return r


def toint(f, b, size=None):
    o = R.choice(["to_ubv", "to_sbv"])
    size = size if size is not None else R.choice([1, 2, 3, 8, 16, 40])
    x = frombits(typ(f), b)
    return {"op": "toint", "o": o, "size": size, "a": [val(f, b)], "r": obs(*call(getattr(x, o), size))}


def c17(W):
    small = [(2, 1), (1, 2), (2, 2), (3, 1)]
    # exhaustive: every pair of patterns of the small formats
    for e, m in small:
        for mode in MODES:
            for ieee in ((1, 0) if e > 1 else (1,)):
                f = fmt(e, m, mode, ieee)
                ps = all_patterns(f)
                pairs = [(x, y) for x in ps for y in ps]
                cap = 10 ** 9 if THOROUGH else 30 if mode == "RNA" else 260
                for o in ARITH:
                    for x, y in (pairs if len(pairs) <= cap else R.sample(pairs, cap)):
                        W.stateless(event(o, f, [x, y]))
                for x in ps:
                    for o in ("sqrt", "rint"):
                        W.stateless(event(o, f, [x], "method"))
                    for size in (1, 3, 8):
                        W.stateless(toint(f, x, size))
                for _ in range(2000 if THOROUGH else 40):
                    W.stateless(event("fma", f, [R.choice(ps) for _ in range(3)], "method"))
                # every binary fraction around the values, as a fraction string
                bias = (1 << (e - 1)) - 1
                u = Fraction(2) ** (-bias - m - 1)
                top = int(Fraction(2) ** (bias + 2) / u)
                for j in range(-top, top + 1):
                    if j and (THOROUGH or R.randrange(top) < 16):
                        construct(W, f, str(u * j), rat(u * j))
    medium = [(3, 2), (4, 3), (5, 10), (8, 7), (8, 23), (11, 52), (2, 9), (6, 1), (4, 20), (15, 112), (3, 40)]
    n = 140 if THOROUGH else 16
    for e, m in medium:
        for mode in MODES:
            for ieee in (1, 0):
                f = fmt(e, m, mode, ieee)
                top = (1 << e) - 1
                for i in range(n if mode != "RNA" else n // 4):
                    near = R.choice([top // 2, top // 2, 2, top - 2, R.randrange(1, top)])
                    sp = R.choice([0, 1, 3, m + 2])
                    x, y = some_pattern(f, near, sp), some_pattern(f, near, sp)
                    for o in ("add", "sub", "rem"):
                        if o != "rem" or e <= 8:
                            W.stateless(event(o, f, [x, y]), 2)
                    # products and quotients at the ends of the range
                    tgt = R.choice([top // 2, 1, 0, top, top - 1])
                    cx = min(max(near, 1), top - 1)
                    x, y = some_pattern(f, cx, sp), some_pattern(f, min(max(tgt - cx + top // 2, 0), top - 1), R.choice([0, 1, 2]))
                    W.stateless(event("mul", f, [x, y]), 2)
                    W.stateless(event("fma", f, [x, y, some_pattern(f, min(max(tgt, 0), top - 1), R.choice([1, m + 3]))], "method"), 3)
                    x, y = some_pattern(f, cx, sp), some_pattern(f, min(max(cx - tgt + top // 2, 0), top - 1), R.choice([0, 1, 2]))
                    W.stateless(event("div", f, [x, y]), 2)
                    W.stateless(event("sqrt", f, [some_pattern(f, near, sp)], "method"), 2)
                    z = some_pattern(f, min(max((top // 2) + R.randint(-2, m + 2), 0), top - 1), 2)
                    W.stateless(event("rint", f, [z], "method"))
                    W.stateless(toint(f, z))
                    for how in ("int", "float", "dec", "frac", "edge", "like"):
                        construct(W, f, *literal(f, how))
                construct(W, f, *literal(f, "special"))
                for _ in range(n // 2):
                    g = fmt(*R.choice(medium + small[2:]), R.choice(MODES), R.choice([0, 1]))
                    if R.randrange(2) and e <= 11:      # a wider value next to a midpoint of the format
                        g = fmt(*R.choice([(15, 112), (13, 60), (max(e, 3), m + 40)]), R.choice(MODES), R.choice([0, 1]))
                        x, exc = call(lambda: typ(g)(literal(f, "edge")[0]))
                        b = pat(x) if exc is None else some_pattern(g)
                    else:
                        b = some_pattern(g, R.choice([None, (1 << (g["e"] - 1)) + scale(f)]) if 2 < g["e"] else None)
                    if canonical(g, b):
                        W.stateless({"op": "construct", "o": "FPVector", "f": f, "src": val2(g, b), "r": obs(*call(typ(f), frombits(typ(g), b)))}, 2)


def val2(f, b):
    return {"k": "fp", "f": f, "b": b}


def frombv(f, b):
    g, warned = warns(frombits)
    r = obs(*call(g, typ(f), b))
    return {"op": "frombv", "f": f, "b": b, "r": r, "warn": warned()}


def tofloat(f, b):
    v, e = call(lambda: float(frombits(typ(f), b)))
    return {"op": "float", "a": [val(f, pat(frombits(typ(f), b)))], "r": exc_obs(e) if e else from_float(v)}


def pred(f, b, o):
    x = frombits(typ(f), b)
    return {"op": "pred", "o": o, "a": [val(f, pat(x))], "r": obs(*call(getattr(x, "fp_" + o)))}


def c18(W):
    for e, m in [(2, 1), (1, 2), (2, 2), (3, 1), (3, 3), (4, 2), (1, 4)] + ([(4, 4), (5, 4), (2, 6)] if THOROUGH else []):
        for mode in (MODES if e + m < 5 or THOROUGH else R.sample(MODES, 2)):
            for ieee in ((1, 0) if e > 1 else (1,)):
                f = fmt(e, m, mode, ieee)
                every = [bits(i, width(f)) for i in range(1 << width(f))]
                for b in every:
                    W.stateless(frombv(f, b))
                    W.stateless(tofloat(f, b))
                    for o in PREDS:
                        W.stateless(pred(f, b, o))
                    for o in ("abs", "neg"):
                        W.stateless(event(o, f, [b]))
                pairs = [(x, y) for x in every for y in every]
                cap = 10 ** 9 if THOROUGH and len(pairs) <= 4096 else 130
                for o in CMPS + ["min", "max"]:
                    for x, y in (pairs if len(pairs) <= cap else R.sample(pairs, cap)):
                        W.stateless(event(o, f, [x, y]))
    random.seed(SEED)
    for e, m in [(2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (5, 10), (8, 23), (2, 9), (15, 112)]:
        for mode in MODES if e < 4 else R.sample(MODES, 2):
            for ieee in (0, 1):
                f = fmt(e, m, mode, ieee)
                for inf in (False, True):
                    W.stateless(draws(f, inf, 2000 if e + m < 6 else 100), 3)
                refusals(W, f)
    n = 200 if THOROUGH else 25
    for e, m in [(5, 10), (8, 7), (8, 23), (11, 52), (2, 9), (6, 1), (4, 20), (15, 112), (3, 40), (19, 236)]:
        for mode in R.sample(MODES, 5 if THOROUGH else 2):
            for ieee in (1, 0):
                f = fmt(e, m, mode, ieee)
                for i in range(n):
                    if R.randrange(3):
                        b = some_pattern(f)
                    else:
                        b = bits(R.getrandbits(width(f)), width(f))
                        if R.randrange(3) == 0:
                            b[m:m + e] = [R.randrange(2)] * e
                    c = R.choice([some_pattern(f), b[:-1] + [1 - b[-1]], flip(b), b])
                    W.stateless(frombv(f, b))
                    if e <= 11 and m <= 52:
                        W.stateless(tofloat(f, b))
                    if e <= 15:
                        for o in PREDS:
                            W.stateless(pred(f, b, o))
                        for o in ("abs", "neg"):
                            W.stateless(event(o, f, [b]))
                        for o in CMPS + ["min", "max"]:
                            W.stateless(event(o, f, [b, c]))
                for w in (width(f) - 1, width(f) + 1):
                    W.stateless(frombv(f, bits(R.getrandbits(w), w)))


def draws(f, inf, n):
    T = typ(f)
    got, e = call(lambda: [obs(T.random(inf) if inf or R.randrange(2) else T.random(allow_inf=False), None) for _ in range(n)])
    r = exc_obs(e) if e else {"k": "draws", "v": [list(map(int, b)) for b in {"".join(map(str, x["b"])) if x["k"] == "fp" and x["f"] == f else "" for x in got}]}
    return {"op": "random", "f": f, "inf": int(inf), "all": int(f["e"] + f["m"] < 6), "r": r}


def refusals(W, f):
    """what no number can be made of, and classes that would have another context"""
    T = typ(f)
    other = typ(fmt(f["e"], f["m"] + 1, f["mode"], f["ieee"]))
    for o, fn, want in (("string", lambda: T(R.choice(["x", "1//2", "one", "1/2/3", "--1"])), ["ValueError"]),
                        ("object", lambda: T(R.choice([object(), {}, [1, "x"], None, ()])), ["TypeError"]),
                        ("context", lambda: type(T)("Mine", (T,), {"_ctx_": R.choice([1, None, "x"])}), ["TypeError"]),
                        ("context", lambda: type(T)("Mine", (T,), {"_ctx_": other._ctx_} if hasattr(other, "_ctx_") else {"_ctx_": 1}), ["TypeError"]),
                        ("zero denominator", lambda: T("1/0"), ["ZeroDivisionError", "ValueError"])):
        W.stateless({"op": "invalid", "o": o, "want": want, "r": obs(*call(fn))})


def flip(b):
    i = R.randrange(len(b))
    return b[:i] + [1 - b[i]] + b[i + 1:]


class Run:
    def __init__(self, W, prop, k):
        self.W, self.prop = W, prop
        e, m = R.choice([(2, 2), (3, 2), (5, 10), (8, 7), (4, 12), (8, 23)])
        mode = R.choice(MODES[:1] + MODES[2:])
        ieee = R.randrange(2)
        others = [fmt(e, m, R.choice(MODES[:1] + MODES[2:]), ieee), fmt(e, m, mode, 1 - ieee), fmt(m + 1, e, mode, ieee) if e > 1 and m + 1 < 9 and e > 1 else fmt(3, 3, mode, ieee),
                  fmt(e, m + 1, mode, ieee), fmt(*R.choice([(2, 1), (6, 9), (11, 20)]), R.choice(MODES if prop == "C17" else MODES[:1]), R.randrange(2))]
        fs = [fmt(e, m, mode, ieee)]
        for f in R.sample(others, len(others)):
            if f not in fs and len(fs) < 4:
                fs.append(f)
        self.fs = fs
        self.regs = {}

    def reg(self, i):
        return {"k": "reg", "i": i}

    def emit(self, e, v=None, cost=1.0):
        self.W.emit(e, cost)
        if "dst" in e and e["r"]["k"] == "fp":
            self.regs[e["dst"]] = v

    def lit(self, f, how):
        v, x = literal(f, how if how != "bits" else "edge")
        return v, x

    def step(self, st):
        a = st["a"]
        if a == "new":
            f = self.fs[(st["f"] - 1) % len(self.fs)]
            if st["how"] == "bits":
                b = some_pattern(f)
                g, warned = warns(frombits)
                v, e = call(g, typ(f), b)
                return self.emit({"op": "frombv", "f": f, "b": b, "dst": st["dst"], "r": obs(v, e), "warn": warned()}, v)
            x, src = self.lit(f, st["how"])
            v, e = call(typ(f), x)
            return self.emit({"op": "construct", "o": type(x).__name__, "f": f, "lit": repr(x)[:60], "src": src, "dst": st["dst"], "r": obs(v, e)}, v)
        x = st["x"]
        if a == "all":
            return self.emit({"op": "again", "post": [{"i": i, "r": obs(v, None)} for i, v in self.regs.items()]}, cost=len(self.regs))
        if any(i not in self.regs for i in x):
            return
        xs = [self.regs[i] for i in x]
        T = type(xs[0])
        f = fmt(T.exponent_size, T.mantissa_size, T.mode.name, T.ieee_compliance)
        if a in ("op", "cmp"):
            via = R.choice(["method", "operator"])
            v, e = apply(st["o"], xs, via)
            ev = {"op": KIND[st["o"]], "o": st["o"], "via": via, "a": [self.reg(i) for i in x], "r": obs(v, e)}
            if a == "op":
                ev["dst"] = st["dst"]
            self.emit(ev, v)
        elif a == "oplit":
            y, src = self.lit(f, st["how"])
            t, e = call(T, y)
            if e is not None or obs(t, e)["k"] != "fp":
                return self.emit({"op": "construct", "o": "lit", "f": f, "src": src, "r": obs(t, e)})
            self.emit({"op": "construct", "o": "lit", "f": f, "src": src, "r": obs(t, e)})
            via = R.choice(["method", "operator"])
            v, e = apply(st["o"], [xs[0], y], via)
            self.emit({"op": KIND[st["o"]], "o": st["o"] + " number", "via": via, "a": [self.reg(x[0]), val(f, pat(t))], "dst": st["dst"], "r": obs(v, e)} | {"o": st["o"]}, v)
        elif a == "conv":
            g = self.fs[(st["f"] - 1) % len(self.fs)]
            v, e = call(typ(g), xs[0])
            self.emit({"op": "construct", "o": "FPVector", "f": g, "src": self.reg(x[0]), "dst": st["dst"], "r": obs(v, e)}, v)
        elif a == "pred":
            o = R.choice(PREDS)
            self.emit({"op": "pred", "o": o, "a": [self.reg(x[0])], "r": obs(*call(getattr(xs[0], "fp_" + o)))})
        elif a == "toint":
            o, size = R.choice(["to_ubv", "to_sbv"]), R.choice([1, 4, 9, 33])
            self.emit({"op": "toint", "o": o, "size": size, "a": [self.reg(x[0])], "r": obs(*call(getattr(xs[0], o), size))})
        elif a == "bad":
            o = R.choice(ARITH + CMPS + ["min", "max"])
            y = R.choice([object(), {}, Ellipsis])
            v, e = apply(o, [xs[0], y], R.choice(["method", "operator"]))
            self.emit({"op": "refused", "o": o, "a": [self.reg(x[0])], "y": repr(y)[:20], "r": obs(v, e)})

    def run(self, prog):
        self.W.pick()
        self.W.emit({"op": "reset"})
        for st in prog:
            self.step(st)


def go(out):
    W = Writer(out)
    prop = sys.argv[2]
    (c17 if prop == "C17" else c18)(W)
    k = 0
    for path in sys.argv[3:]:
        with open(path) as fh:
            for line in fh:
                if line.strip():
                    k += 1
                    Run(W, prop, k).run(json.loads(line)["prog"])
    W.close()


if __name__ == "__main__":
    main(go)
