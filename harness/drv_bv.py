"""Stateless bit vector calls for C01..C06 and C08, judged by BVTrace."""
import itertools as it
import operator as op
import random
import sys

from dlib import *
from bvobs import *
import hwtypes as ht

R = random.Random(SEED)
OPS = {"&": op.and_, "|": op.or_, "^": op.xor, "+": op.add, "-": op.sub, "*": op.mul, "<<": op.lshift, ">>": op.rshift,
       "//": op.floordiv, "%": op.mod, "==": op.eq, "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
WIDE = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 34, 40, 47, 48, 49, 53, 54, 63, 64, 65, 66,
        80, 96, 97, 100, 127, 128, 129, 130]
HUGE = [160, 192, 200, 255, 256, 257, 300, 384, 511, 512, 513, 600, 1000, 1024, 1025]


def corners(w):
    m = 1 << w
    s = {0, 1, 2, 3, m - 1, m - 2, m - 3, m >> 1, (m >> 1) - 1, (m >> 1) + 1, w, w - 1, w + 1, 2 * w,
         int("01" * ((w + 1) // 2), 2), int("10" * ((w + 1) // 2), 2), (1 << (w // 2)) - 1, 1 << (w // 2),
         m - (1 << (w // 2)), (1 << (w // 2)) + 1, m // 3, m // 5}
    return sorted({x % m for x in s})


def rnd(w, R=R):
    k = R.random()
    m = 1 << w
    if k < 0.35:
        return R.getrandbits(w)
    if k < 0.5:
        return R.choice(corners(w))
    if k < 0.6:
        return 1 << R.randrange(w)
    if k < 0.7:
        return (m - 1) ^ (1 << R.randrange(w))
    if k < 0.8:
        return R.getrandbits(R.randint(1, w))
    if k < 0.9:
        return (m - 1 - R.getrandbits(R.randint(1, w))) % m
    if k < 0.95:
        return R.randrange(0, min(m, 2 * w + 4))
    lo = R.randrange(w)
    hi = R.randint(lo, w)
    return ((1 << hi) - (1 << lo)) % m


def amounts(w):
    m = 1 << w
    s = {0, 1, 2, w // 2, w - 1, w, w + 1, 2 * w, 2 * w - 1, 2 * w + 1, m - 1, m - 2, m >> 1, (m >> 1) + 1,
         1 << min(w - 1, 31), 1 << min(w - 1, 32), 1 << min(w - 1, 63), 1 << min(w - 1, 64)}
    s |= {(1 << k) for k in range(min(w, 12))}
    return sorted(x for x in s if 0 <= x < m)


def cost_of(o, w):
    if o in ("*", "//", "%", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem"):
        return 1 + (w / 16) ** 2
    return 1 + w / 32


DEFAULTS = {"bvnand", "bvnor", "bvxnor", "bvne", "bvule", "bvugt", "bvuge", "bvsle", "bvsgt", "bvsge"}


class Bin:
    def __init__(self, W, be="c"):
        self.W = W
        self.be = be

    def oper(self, o, t, a, b, w, t2=None):
        be = self.be
        x, y = make(be, t, w, a), make(be, t2 or t, w, b)
        self.W.stateless({"op": "bin", "be": be, "o": o, "x": bv_lit(be, t, w, a), "y": bv_lit(be, t2 or t, w, b),
                          "r": result(OPS[o], x, y)}, cost_of(o, w))

    def meth(self, m, t, a, b, w, t2=None):
        be = self.be
        x, y = make(be, t, w, a), make(be, t2 or t, w, b)
        self.W.stateless({"op": "meth", "be": be, "o": m, "x": bv_lit(be, t, w, a), "y": bv_lit(be, t2 or t, w, b),
                          "r": result(lambda: getattr(x, m)(y))}, cost_of(m, w))
        if m in DEFAULTS and hasattr(ht.AbstractBitVector, m) and R.random() < 0.3:      # what a new family of vectors inherits
            self.W.stateless({"op": "meth", "be": be, "o": m, "via": "default", "x": bv_lit(be, t, w, a), "y": bv_lit(be, t2 or t, w, b),
                              "r": result(lambda: getattr(ht.AbstractBitVector, m)(x, y))}, cost_of(m, w))

    def unary(self, m, t, a, w):
        be = self.be
        x = make(be, t, w, a)
        f = {"~": op.invert, "-": op.neg}.get(m) or (lambda v: getattr(v, m)())
        self.W.stateless({"op": "un", "be": be, "o": m, "x": bv_lit(be, t, w, a), "r": result(f, x)}, 1 + w / 32)


def c01(out):
    W = Writer(out)
    B = Bin(W)
    ops, meths = ["+", "-", "*", "//", "%"], ["bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem"]
    for w in (1, 2, 3, 4):
        for a in range(1 << w):
            for t in ("BV", "UV", "SV"):
                for m in ("-", "bvneg"):
                    B.unary(m, t, a, w)
            for b in range(1 << w):
                for t in (("BV", "UV", "SV") if w < 4 else ("BV", "SV")):
                    for o in ops:
                        B.oper(o, t, a, b, w)
                for m in meths:
                    B.meth(m, "BV", a, b, w)
                for c in (0, 1):
                    adc(W, R.choice(["BV", "UV", "SV"]), w, a, b, c, R.randrange(5))
    n = 400 if THOROUGH else 26
    for w in WIDE + [x for x in HUGE if x <= (1025 if THOROUGH else 257)]:
        k = n if w <= 66 else max(6, n * 66 // (2 * w))
        cs = corners(w)
        pairs = [(rnd(w), rnd(w)) for _ in range(k)] + [(R.choice(cs), R.choice(cs)) for _ in range(k)]
        pairs += [(1 << (w - 1), (1 << w) - 1), ((1 << w) - 1, (1 << w) - 1), ((1 << w) - 1, 1), (1 << (w - 1), 1),
                  (0, (1 << w) - 1), (R.choice(cs), 0), (rnd(w), 0), (1 << (w - 1), 0)]
        # exact and off-by-one multiples for division
        for _ in range(max(2, k // 8)):
            d = R.getrandbits(max(1, w // 2)) | 1
            q = R.getrandbits(max(1, w - d.bit_length()))
            pairs += [(d * q % (1 << w), d), ((d * q - 1) % (1 << w), d), (-(d * q) % (1 << w), d), ((d * q) % (1 << w), -d % (1 << w))]
        for a, b in pairs:
            t = R.choice(["BV", "UV", "SV", "NV", "MB", "MS", "MU"])
            for o in R.sample(ops, 3):
                B.oper(o, t, a, b, w)
            for m in R.sample(meths, 3):
                B.meth(m, R.choice(["BV", "UV", "SV"]), a, b, w)
            B.unary(R.choice(["-", "bvneg"]), t, a, w)
            adc(W, t, w, a, b, R.randrange(2), R.randrange(5))
    for _ in range(400 if THOROUGH else 60):
        chain(W)
    W.close()


def carry_arg(kind, c):
    """(real carry, abstract carry)"""
    if kind == 0:
        return ht.Bit(c), {"k": "bit", "be": "c", "b": c}
    if kind == 1:
        return bool(c), {"k": "bool", "b": c}
    if kind == 2:
        return c, int_obs(c)
    if kind == 3:
        return ht.BitVector[1](c), bv_lit("c", "BV", 1, c)
    return ht.UIntVector[1](c), bv_lit("c", "UV", 1, c)


def adc(W, t, w, a, b, c, kind):
    x, y = make("c", t, w, a), make("c", t, w, b)
    rc, ac = carry_arg(kind, c)
    W.stateless({"op": "adc", "be": "c", "x": bv_lit("c", t, w, a), "y": bv_lit("c", t, w, b), "z": ac,
                 "r": result(lambda: x.adc(y, rc))}, 1 + w / 16)


def chain(W):
    """a long addition as a chain of adc over an arbitrary splitting"""
    k = R.randint(2, 6)
    ws = [R.choice([1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 64]) for _ in range(k)]
    tot = sum(ws)
    a, b, c = rnd(tot), rnd(tot), R.randrange(2)
    if R.random() < 0.4:
        b = ((1 << tot) - 1 - a + R.choice([0, 0, 1])) % (1 << tot)
    carry, lo, bits, cur = ht.Bit(c), 0, [], {"k": "bit", "be": "c", "b": c}
    for w in ws:
        x, y = (a >> lo) & ((1 << w) - 1), (b >> lo) & ((1 << w) - 1)
        v, o = run(lambda: make("c", "BV", w, x).adc(make("c", "BV", w, y), carry))
        lo += w
        if v is None or o["k"] != "tup" or len(o["e"]) != 2 or o["e"][0].get("k") != "bv":
            W.stateless({"op": "chain", "be": "c", "x": bv_lit("c", "BV", tot, a), "y": bv_lit("c", "BV", tot, b),
                         "z": {"k": "bit", "be": "c", "b": c}, "r": o}, 2, canary=False)
            return
        bits += o["e"][0]["b"]
        carry = v[1]
        cur = o["e"][1]
    W.stateless({"op": "chain", "be": "c", "x": bv_lit("c", "BV", tot, a), "y": bv_lit("c", "BV", tot, b),
                 "z": {"k": "bit", "be": "c", "b": c}, "ws": ws,
                 "r": {"k": "tup", "e": [{"k": "bv", "be": "c", "t": "BV", "w": tot, "b": bits}, cur]}}, 4)


def c02(out):
    W = Writer(out)
    B = Bin(W)
    ops = ["&", "|", "^", "<<", ">>"]
    logic = ["bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor"]
    shifts = ["bvshl", "bvlshr", "bvashr", "bvrol", "bvror"]
    for w in (1, 2, 3, 4):
        for a in range(1 << w):
            for t in ("BV", "UV", "SV", "NV", "MB", "MS"):
                for m in ("~", "bvnot"):
                    B.unary(m, t, a, w)
            for b in range(1 << w):
                for t in (("BV", "UV", "SV") if w < 4 else ("BV", "SV")):
                    for o in ops:
                        B.oper(o, t, a, b, w)
                for m in logic + shifts:
                    B.meth(m, "BV" if w < 3 else R.choice(["BV", "UV", "SV"]), a, b, w)
    n = 300 if THOROUGH else 14
    for w in WIDE + HUGE:
        k = n if w < 130 else max(4, n // 4)
        for _ in range(k):
            a, b = rnd(w), rnd(w)
            t = R.choice(["BV", "UV", "SV", "NV", "MB", "MS", "MU"])
            for m in R.sample(logic, 3):
                B.meth(m, t, a, b, w)
            B.oper(R.choice("&|^"), t, a, b, w)
            B.unary(R.choice(["~", "bvnot"]), t, a, w)
        am = amounts(w)
        for s in (am if (w < 130 or THOROUGH) else R.sample(am, min(len(am), 10))):
            for m in shifts:
                for a in (rnd(w), rnd(w) | (1 << (w - 1))):
                    B.meth(m, R.choice(["BV", "UV", "SV"]), a, s, w)
            a = rnd(w) | (1 << (w - 1))
            B.oper("<<", R.choice(["BV", "UV", "SV"]), a, s, w)
            B.oper(">>", "BV", a, s, w)
            B.oper(">>", "UV", a, s, w)
            B.oper(">>", "SV", a, s, w)
            B.oper(">>", "SV", rnd(w) & ~(1 << (w - 1)), s, w)
        for _ in range(n if w < 130 else n // 3):
            B.meth(R.choice(shifts), R.choice(["BV", "UV", "SV"]), rnd(w), rnd(w), w)
            B.meth(R.choice(shifts), R.choice(["BV", "UV", "SV"]), rnd(w), R.randrange(0, min(1 << w, 2 * w + 2)), w)
    W.close()


def c03(out):
    W = Writer(out)
    B = Bin(W)
    cmp = ["==", "!=", "<", "<=", ">", ">="]
    meths = ["bveq", "bvne", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "bvcomp"]
    types = ["BV", "NV", "UV", "SV", "MB", "MS", "MU"]
    sign = ["<", "<=", ">", ">=", ">>", "//", "%", "==", "!="]

    def extra(t, a, b, w):
        x = make("c", t, w, a)
        n = R.choice([0, 1, 2, 3, 7])
        W.stateless({"op": "ext", "be": "c", "o": "ext", "x": bv_lit("c", t, w, a), "n": n, "r": result(lambda: x.ext(n))})
        W.stateless({"op": "view", "be": "c", "o": "int", "x": bv_lit("c", t, w, a), "r": result(lambda: int(x))})
        y = make("c", t, w, b)
        W.stateless({"op": "ovf", "be": "c", "x": bv_lit("c", t, w, a), "y": bv_lit("c", t, w, b),
                     "r": result(lambda: ht.overflow(x, y, x + y))})

    for w in (1, 2, 3, 4):
        for a in range(1 << w):
            for b in range(1 << w):
                for t in types:
                    for o in (cmp if w == 4 else sign):
                        B.oper(o, t, a, b, w)
                    if w < 4:
                        extra(t, a, b, w)
                for m in meths:
                    B.meth(m, R.choice(types), a, b, w)
                if w < 4:
                    for t, t2 in it.permutations(types, 2):
                        o = sign[(a + 3 * b + w) % len(sign)] if w == 3 else R.choice(sign)
                        B.oper(o, t, a, b, w, t2)
    for t, t2 in it.product(types, types):
        for w in (1, 2, 5, 8, 33, 64, 65):
            for o in sign:
                for a, b in ((1 << (w - 1), 1), (1, 1 << (w - 1)), ((1 << w) - 1, (1 << w) - 1), ((1 << w) - 1, 0), (rnd(w), rnd(w))):
                    B.oper(o, t, a, b, w, t2)
    n = 200 if THOROUGH else 14
    for w in WIDE + HUGE:
        m = 1 << w
        edge = [0, 1, m - 1, m >> 1, (m >> 1) - 1, (m >> 1) + 1, m - 2]
        for _ in range(n if w < 130 else max(4, n // 3)):
            a, b = R.choice([(rnd(w), rnd(w)), (R.choice(edge), R.choice(edge)), (R.choice(edge), rnd(w))])
            if R.random() < 0.3:
                b = a if R.random() < 0.4 else a ^ (1 << R.randrange(w))
            t = R.choice(types)
            for o in R.sample(cmp, 4):
                B.oper(o, R.choice(types), a, b, w)
            for x in R.sample(meths, 5):
                B.meth(x, R.choice(types), a, b, w)
            o = R.choice(sign)
            if w < 130 or o not in ("//", "%"):
                B.oper(o, t, a, b, w, R.choice(types))
            if o != ">>":
                B.oper(">>", t, a, R.choice(amounts(w)), w, R.choice(types))
            extra(t, a, b, w)
    W.close()


def pick_slice(w):
    c = [None] + list(range(-w - 2, w + 3)) if w < 12 else [None, 0, 1, -1, w, w - 1, w + 1, -w, 1 - w, -w - 1, w // 2] + [
        R.randrange(-w - 3, w + 3) for _ in range(6)]
    lo, hi = R.choice(c), R.choice(c)
    st = R.choice([None, None, None, None, 1, 1, 2, 3, -1, -2, w, -w, 0, 5])
    return lo, hi, st


def slice_rec(lo, hi, st):
    return {"hl": int(lo is not None), "lo": lo or 0, "hh": int(hi is not None), "hi": hi or 0,
            "hs": int(st is not None), "step": st or 0}


def alt(i):
    return i if i is None else pyint(i)


def do_slice(W, be, t, w, a, lo, hi, st, cost=1.0):
    x = make(be, t, w, a)
    W.stateless({"op": "slice", "be": be, "x": bv_lit(be, t, w, a), "sl": slice_rec(lo, hi, st),
                 "r": result(lambda: x[alt(lo):alt(hi):alt(st)])}, cost)


def do_set(W, be, t, w, a, i, val, cost=1.0):
    x = make(be, t, w, a)
    real, lit = val
    j = pyint(i)

    def f():
        x[j] = real
    r = result(f)
    W.stateless({"op": "set", "be": be, "x": bv_lit(be, t, w, a), "i": i, "y": lit, "r": r, "after": obs(x)}, cost, canary=False)


def set_vals(be="c"):
    b = R.randrange(2)
    bit = BIT[be](b)
    k = R.random()
    if k < 0.35:
        return bit, {"k": "bit", "be": be, "b": b}
    if k < 0.6:
        return bool(b), {"k": "bool", "b": b}
    if k < 0.85:
        return pyint(b), int_obs(b)
    return R.choice([(2, int_obs(2)), (K(2), int_obs(2)), (Count.TWO, int_obs(2)), (K(-1), int_obs(-1)), (-1, int_obs(-1)), (1 << 40, int_obs(1 << 40)), (None, {"k": "junk"}),
                     (make(be, "BV", 1, b), {"k": "junk"}), (1.0, {"k": "junk"})])


def c04(out):
    W = Writer(out)
    types = ["BV", "NV", "UV", "SV", "MB", "MS", "MU"]
    for w in (1, 2, 3):
        rng = [None] + list(range(-w - 1, w + 2))
        for lo in rng:
            for hi in rng:
                for st in (None, 1, 2, -1, -2, 0):
                    for a in {1 << (w - 1), R.getrandbits(w), 1}:
                        do_slice(W, "c", R.choice(types), w, a, lo, hi, st)
        for a in range(1 << w):
            for i in range(-w - 2, w + 2):
                t = R.choice(types)
                x = make("c", t, w, a)
                for j in {0: i, 1: K(i), 2: pyint(i)}.values():
                    W.stateless({"op": "get", "be": "c", "x": bv_lit("c", t, w, a), "i": i, "r": result(lambda: x[j])})
                for v in ((0, int_obs(0)), (1, int_obs(1)), set_vals()):
                    do_set(W, "c", R.choice(types), w, a, i, v)
    widths = [4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 512]
    n = 120 if THOROUGH else 16
    for w in widths:
        k = n if w < 130 else n // 2
        for _ in range(k):
            t = R.choice(types)
            a = rnd(w)
            for _ in range(3):
                do_slice(W, "c", t, w, a, *pick_slice(w), cost=1 + w / 64)
            do_slice(W, "c", t, w, a, *sorted((R.randint(0, w), R.randint(0, w))), None, cost=1 + w / 64)
            for i in {R.choice([0, -1, w - 1, -w, w, -w - 1, 1, w // 2]), R.randrange(-w, w), R.randrange(-2 * w, 2 * w)}:
                x = make("c", t, w, a)
                j = pyint(i)
                W.stateless({"op": "get", "be": "c", "x": bv_lit("c", t, w, a), "i": i, "r": result(lambda: x[j])})
                do_set(W, "c", t, w, a, i, set_vals(), 1 + w / 64)
            concat_ext(W, t, w, a)
        # every single bit position
        for i in range(w) if w <= 65 or THOROUGH else R.sample(range(w), 40):
            x = make("c", "BV", w, 1 << i)
            W.stateless({"op": "get", "be": "c", "x": bv_lit("c", "BV", w, 1 << i), "i": i, "r": result(lambda: x[i])})
            do_set(W, "c", "BV", w, 0, i, (True, {"k": "bool", "b": 1}), 1 + w / 64)
            do_set(W, "c", "SV", w, -1, i - w, (0, int_obs(0)), 1 + w / 64)
    for w in (1, 2, 3, 4):
        for a in range(1 << w):
            for t in types:
                concat_ext(W, t, w, a)
    # non-index objects and slice assignment
    x = make("c", "BV", 8, 5)
    for bad in (1.0, "0", None, (0, 1)):
        W.stateless({"op": "raises", "be": "c", "o": f"getitem {bad!r}", "c": "TypeError", "r": result(lambda: x[bad])})

    def sset():
        x[0:2] = 1
    W.stateless({"op": "raises", "be": "c", "o": "slice assignment", "c": "NotImplementedError", "r": result(sset)})
    for m in ("zext", "sext", "repeat", "ext"):
        W.stateless({"op": "raises", "be": "c", "o": m + " None", "c": "TypeError", "r": result(lambda: getattr(x, m)(None))})
    W.close()


def concat_ext(W, t, w, a):
    types = ["BV", "NV", "UV", "SV", "MB", "MS", "MU"]
    x = make("c", t, w, a)
    lit = bv_lit("c", t, w, a)
    for m in ("zext", "sext", "ext", "repeat"):
        n = R.choice([-2, -1, 0, 0, 1, 1, 2, 3, 4, 5, 8, 31, 33]) if m != "repeat" else R.choice([-1, 0, 1, 2, 3, 4, 7])
        real = pyint(n)
        if R.random() < 0.2 and n >= 0:
            real = ht.BitVector[8](n)      # any object with __int__
        W.stateless({"op": "ext", "be": "c", "o": m, "x": lit, "n": n, "r": result(lambda: getattr(x, m)(real))}, 1 + w / 32)
    t2 = R.choice([t, t, t, "BV", "NV", "UV", "SV", "MB", "MS", "MU"])
    w2 = R.choice([1, 2, 3, w, R.randint(1, 70)])
    b = rnd(w2)
    y = make("c", t2, w2, b)
    W.stateless({"op": "concat", "be": "c", "x": lit, "y": bv_lit("c", t2, w2, b), "r": result(lambda: x.concat(y))}, 1 + w / 64)
    if R.random() < 0.15:
        bad, l = R.choice([(1, int_obs(1)), (ht.Bit(1), {"k": "bit", "be": "c", "b": 1}), (None, {"k": "junk"}), ([1, 0], {"k": "seq", "e": [1, 0]})])
        W.stateless({"op": "concat", "be": "c", "x": lit, "y": l, "r": result(lambda: x.concat(bad))})


def sources(w, R=R):
    """(real object, abstract value) of every kind a vector can be built from"""
    m = 1 << w
    v = R.choice([rnd(w), rnd(w), -rnd(w), m, m + 1, -m, -m - 1, -1, R.getrandbits(w + 9), -R.getrandbits(w + 9), rnd(w) + m, 1 << (w + 3)])
    yield v, int_obs(v)
    b = R.randrange(2)
    yield bool(b), {"k": "bool", "b": b}
    yield ht.Bit(b), {"k": "bit", "be": "c", "b": b}
    n = R.choice([0, 1, w - 1, w, w, w + 1, w + 5]) if w < 70 else R.choice([w, w - 1, w + 1])
    bits = [R.randrange(2) for _ in range(max(n, 0))]
    sq = {"k": "seq", "e": bits}
    yield list(bits), sq
    yield tuple(bool(x) for x in bits), sq
    yield [ht.Bit(x) for x in bits], sq
    # the truth of an element counts
    yield [R.choice([1, True, 2, -1, "0", 4.5, ht.BitVector[3](6), (0,), 256]) if x else R.choice([0, False, "", None, 0.0, ht.BitVector[3](0), ()]) for x in bits], sq
    yield Obj(v), int_obs(v, "obj")
    f = float(R.randrange(0, 1 << min(w, 50))) + R.choice([0.0, 0.25, 0.75])
    yield f, int_obs(int(f), "obj")
    w2 = R.choice([1, w, max(1, w - 1), w + 1, R.randint(1, 70)])
    t2 = R.choice(["BV", "UV", "SV", "NV", "MB", "MS", "MU"])
    c = R.choice([rnd(w2), (1 << w2) - 1])
    yield make("c", t2, w2, c), bv_lit("c", t2, w2, c)


class NoConv:
    pass


def views(W, t, w, a, which=None, cost=1.0):
    x = make("c", t, w, a)
    lit = bv_lit("c", t, w, a)
    T = type(x)

    allv = view_fns(x)
    for m in which or allv:
        if m == "repr" and a.bit_length() > 1000:
            continue
        W.stateless({"op": "view", "be": "c", "o": m, "x": lit, "r": allv[m]()}, cost)
    for how, f in (("uint", lambda: T(x.as_uint())), ("sint", lambda: T(x.as_sint())), ("bits", lambda: T(x.bits())),
                   ("bools", lambda: T(x.as_bool_list())), ("bin", lambda: T(int(x.binary_string(), 2))),
                   ("bin0b", lambda: T(int(x.as_binary_string(), 2))), ("str", lambda: T(int(str(x)))), ("int", lambda: T(int(x))),
                   ("same", lambda: T(x)), ("getitem", lambda: T([x[i] for i in range(len(x))])),
                   ("const", lambda: T.make_constant(x.as_uint()))):
        if which is None or R.random() < 0.3:
            W.stateless({"op": "view", "be": "c", "o": "rebuild", "how": how, "x": lit, "r": result(f)}, cost)
    if which is None or R.random() < 0.5:
        b = R.choice([a, a, rnd(w)])
        y = R.choice([lambda: make("c", t, w, b), lambda: T(bits_of(b, w)), lambda: T(b - (1 << w)), lambda: make("c", t, w + 1, b)[:w],
                      lambda: ~make("c", t, w, ~b)])()
        W.stateless({"op": "hasheq", "be": "c", "x": lit, "y": bv_lit("c", t, w, b), "r": result(lambda: hash(x) == hash(y))}, canary=False)


def c05(out):
    W = Writer(out)
    types = ["BV", "NV", "UV", "SV", "MB", "MS", "MU"]

    def cons(t, w, real, lit):
        T = CT[t][w]
        if lit["k"] == "int":
            real = pyint(real)
        f, warned = warns(lambda: T(real))
        W.stateless({"op": "cons", "be": "c", "t": t, "w": w, "x": lit, "r": result(f), "warn": warned()}, 1 + w / 64)
        if R.random() < 0.3:
            W.stateless({"op": "cons", "be": "c", "o": "make_constant", "t": t, "w": w, "x": lit, "r": result(lambda: T.make_constant(real))})
            w2 = R.choice([1, 2, w, w + 1, 33])
            W.stateless({"op": "cons", "be": "c", "o": "make_constant size", "t": t, "w": w2, "x": lit,
                         "r": result(lambda: T.make_constant(real, w2))})
            W.stateless({"op": "cons", "be": "c", "o": "make_constant inst", "t": t, "w": w2, "x": lit,
                         "r": result(lambda: T(0).make_constant(real, w2))})
        if R.random() < 0.3:
            W.stateless({"op": "implicit", "be": "c", "t": t, "x": lit, "r": result(lambda: CT[t](real))})

    for w in (1, 2, 3, 4):
        for v in range(-(1 << w) - 1, (1 << (w + 1)) + 1):
            for t in types:
                cons(t, w, v, int_obs(v))
                cons(t, w, Obj(v), int_obs(v, "obj"))
        for n in range(0, w + 2):
            for bits in it.product((0, 1), repeat=n):
                cons(R.choice(types), w, list(bits), {"k": "seq", "e": list(bits)})
        for w2 in (1, 2, 3, 4):
            for v in range(1 << w2):
                t2 = R.choice(types)
                cons(R.choice(types), w, make("c", t2, w2, v), bv_lit("c", t2, w2, v))
        for a in range(1 << w):
            for t in types:
                views(W, t, w, a)
    for t in types:
        # a width has to come from somewhere
        W.stateless({"op": "implicit", "be": "c", "t": t, "x": {"k": "junk"}, "r": result(lambda: CT[t]())})
        W.stateless({"op": "cons", "be": "c", "o": "default", "t": t, "w": 7, "x": int_obs(0), "r": result(lambda: CT[t][7]())})
        for bad in (None, object(), {1}, {}, NoConv(), 1j):
            for w in (1, 8):
                cons(t, w, bad, {"k": "junk"})
    n = 60 if THOROUGH else 7
    for w in WIDE + HUGE:
        for _ in range(n if w < 130 else max(2, n // 3)):
            for real, lit in sources(w):
                cons(R.choice(types), w, real, lit)
            views(W, R.choice(types), w, rnd(w), which=R.sample(["as_uint", "as_sint", "as_int", "int", "value", "str", "bool", "bits",
                  "as_bool_list", "binary_string", "as_binary_string", "len", "size", "num_bits", "repr"], 8 if w < 130 else 4), cost=1 + w / 64)
        for a in (0, 1, (1 << w) - 1, 1 << (w - 1)):
            views(W, R.choice(types), w, a, which=["as_sint", "int", "bool", "as_uint"], cost=1 + w / 64)
    random.seed(SEED)
    for t in ("BV", "UV", "SV"):
        for w in (1, 2, 3, 4, 8, 33, 64, 65, 130):
            k = 1500 if w <= 4 else 400
            s = [result(lambda: CT[t].random(w)) for _ in range(k)]
            W.pick()
            W.emit({"op": "random", "be": "c", "o": t, "t": t, "w": w, "samples": s}, 50)
    W.close()


MIX_OPS = ["&", "|", "^", "+", "-", "*", "<<", ">>", "//", "%", "==", "!=", "<", "<=", ">", ">="]
MIX_METH = ["bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvshl", "bvlshr", "bvashr", "bvadd", "bvsub", "bvmul",
            "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bveq", "bvne", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt",
            "bvsge", "bvcomp", "bvrol", "bvror"]


def others(be, w):
    """operands of every kind for the vector of width w"""
    m = 1 << w
    vals = [R.randrange(m), -R.randrange(1, m + 1), m + R.randrange(m), 0, 1, -1, m - 1, m >> 1]
    for v in vals:
        yield pyint(v), int_obs(v)
    v = R.choice(vals)
    yield Obj(v), int_obs(v, "obj")
    f = R.randrange(0, m if w < 40 else 1 << 40) + R.choice([0.0, 0.5])
    yield f, int_obs(int(f), "obj")
    b = R.randrange(2)
    yield bool(b), {"k": "bool", "b": b}
    yield BIT[be](b), {"k": "bit", "be": be, "b": b}
    for n in (w, w, w - 1, w + 2):
        bits = [R.randrange(2) for _ in range(max(0, n))]
        sq = {"k": "seq", "e": bits}
        yield R.choice([list(bits), tuple(bits), [bool(x) for x in bits]]), sq
    for w2 in {w, w + 1, max(1, w - 1), 2 * w, R.randint(1, 70)}:
        for t2 in ("BV", "UV", "SV", "NV", "MB", "MS"):
            c = rnd(w2)
            yield make(be, t2, w2, c), bv_lit(be, t2, w2, c)
    for j in (None, NoConv(), {3}, object(), {}):
        yield j, {"k": "junk"}


def c06(out):
    W = Writer(out)
    for be in ("c", "s"):
        rounds = (12 if THOROUGH else 2) if be == "c" else (6 if THOROUGH else 1)
        for _ in range(rounds):
            for w in ([1, 2, 4, 8, 13, 32, 64, 65] if be == "c" else [1, 4, 8, 33]):
                for t in ("BV", "UV", "SV", "NV", "MB", "MS"):
                    mo = others(be, w)
                    for real, lit in mo:
                        for o in R.sample(MIX_OPS, 5 if be == "c" else 3):
                            mixed(W, be, o, t, w, real, lit)
                        for m in R.sample(MIX_METH[:-2] if be == "s" else MIX_METH, 3 if be == "c" else 2):
                            a = rnd(w)
                            x = make(be, t, w, a)
                            W.stateless({"op": "meth", "be": be, "o": m, "x": bv_lit(be, t, w, a), "y": lit,
                                         "r": result(lambda: getattr(x, m)(real))}, cost_of(m, w))
        # every operator with every kind of operand at least once, both orders
        w = 8
        for o in MIX_OPS:
            for t in ("BV", "SV", "UV"):
                for real, lit in others(be, w):
                    mixed(W, be, o, t, w, real, lit)
        for m in (MIX_METH[:-2] if be == "s" else MIX_METH):
            for real, lit in others(be, w):
                a = rnd(w)
                x = make(be, "BV", w, a)
                W.stateless({"op": "meth", "be": be, "o": m, "x": bv_lit(be, "BV", w, a), "y": lit,
                             "r": result(lambda: getattr(x, m)(real))}, cost_of(m, w))
        # adc coerces its operand and its carry
        for real, lit in others(be, w):
            a = rnd(w)
            x = make(be, "BV", w, a)
            if lit["k"] in ("seq", "bv") and be == "s":
                pass
            W.stateless({"op": "adc", "be": be, "x": bv_lit(be, "BV", w, a), "y": lit, "z": int_obs(1),
                         "r": result(lambda: x.adc(real, 1))}, 2)
            if lit["k"] != "seq" or len(lit["e"]) == 1:
                W.stateless({"op": "adc", "be": be, "x": bv_lit(be, "BV", w, a), "y": int_obs(200), "z": lit,
                             "r": result(lambda: x.adc(200, real))}, 2)
    W.close()


def mixed(W, be, o, t, w, real, lit):
    a = rnd(w)
    x = make(be, t, w, a)
    v = bv_lit(be, t, w, a)
    sides = (0, 1)
    for left in sides:
        # a Bit on the left takes the vector for a truth value, and Python
        # sequences have their own * ; both are outside the property
        if left and (lit["k"] == "bit" or (lit["k"] == "seq" and o in ("==", "!=", "<", "<=", ">", ">="))):
            continue
        if left:
            e = {"op": "bin", "be": be, "o": o, "x": lit, "y": v, "r": result(OPS[o], real, x)}
        else:
            e = {"op": "bin", "be": be, "o": o, "x": v, "y": lit, "r": result(OPS[o], x, real)}
        W.stateless(e, cost_of(o, w))


def c08(out):
    W = Writer(out)
    for be in ("c", "s", "z"):
        B = BIT[be]
        if not B:
            continue
        ops = ["&", "|", "^", "==", "!="]
        for a in (0, 1):
            lit = {"k": "bit", "be": be, "b": a}
            for f in (lambda: B(a), lambda: B(bool(a)), lambda: B(B(a)), lambda: ~B(1 - a), lambda: B(K(a)), lambda: B(Count(a))):
                W.stateless({"op": "consbit", "be": be, "x": lit, "r": result(f)})
            W.stateless({"op": "un", "be": be, "o": "~", "x": lit, "r": result(lambda: ~B(a))})
            for b in (0, 1):
                kinds = [(B(b), {"k": "bit", "be": be, "b": b}), (bool(b), {"k": "bool", "b": b}), (b, int_obs(b)), (K(b), int_obs(b)), (Count(b), int_obs(b)),
                         (Truth(b), {"k": "truth", "b": b})]
                W.stateless({"op": "bitop", "be": be, "o": "!=", "via": "default", "x": lit, "y": {"k": "bit", "be": be, "b": b}, "left": 1,
                             "r": result(lambda: ht.AbstractBit.__ne__(B(a), B(b)))})
                for o in ops:
                    for real, l2 in kinds:
                        W.stateless({"op": "bitop", "be": be, "o": o, "x": lit, "y": l2, "left": 1, "r": result(OPS[o], B(a), real)})
                        if be != "z":
                            W.stateless({"op": "bitop", "be": be, "o": o, "x": l2, "y": lit, "left": 0, "r": result(OPS[o], real, B(a))})
            for o in ops:
                for bad in (2, -1, 3, 255, 1 << 64, -(1 << 64), 7, K(2), K(-1), Count.TWO):
                    W.stateless({"op": "bitop", "be": be, "o": o, "x": lit, "y": int_obs(bad), "left": 1, "r": result(OPS[o], B(a), bad)})
                    if be != "z":
                        W.stateless({"op": "bitop", "be": be, "o": o, "x": int_obs(bad), "y": lit, "left": 0, "r": result(OPS[o], bad, B(a))})
                for j in (NoConv(), object(), "x", [1]):
                    if be == "z":
                        continue
                    W.stateless({"op": "bitop", "be": be, "o": o, "x": lit, "y": {"k": "junk"}, "left": 1, "r": result(OPS[o], B(a), j)})
                    if not isinstance(j, (str, list)):
                        W.stateless({"op": "bitop", "be": be, "o": o, "x": {"k": "junk"}, "y": lit, "left": 0, "r": result(OPS[o], j, B(a))})
            # compositions: three operators deep
            for o1, o2 in it.product(ops, ops):
                for b, c in it.product((0, 1), (0, 1)):
                    mid = result(lambda: OPS[o1](B(a), B(b)))
                    if mid.get("k") == "bit":
                        W.stateless({"op": "bitop", "be": be, "o": o2, "x": mid, "y": {"k": "bit", "be": be, "b": c}, "left": 1,
                                     "r": result(lambda: OPS[o2](OPS[o1](B(a), B(b)), B(c)))})
                        W.stateless({"op": "bitop", "be": be, "o": o2, "x": {"k": "bit", "be": be, "b": c}, "y": mid, "left": 1,
                                     "r": result(lambda: OPS[o2](B(c), OPS[o1](B(a), B(b))))})
        for bad in (2, -1, 3, 255, 1 << 64, -2, K(2), K(-1), Count.TWO):
            W.stateless({"op": "consbit", "be": be, "x": int_obs(bad), "r": result(lambda: B(bad))})
        for j in (NoConv(), object(), "x", [1], "", ()):
            W.stateless({"op": "consbit", "be": be, "x": {"k": "junk"}, "r": result(lambda: B(j))})
        for b in (0, 1):
            W.stateless({"op": "consbit", "be": be, "x": {"k": "truth", "b": b}, "r": result(lambda: B(Truth(b)))})
    for a in (0, 1):
        lit = {"k": "bit", "be": "c", "b": a}
        x = ht.Bit(a)
        for m, f in (("int", lambda: int(x)), ("bool", lambda: bool(x)), ("repr", lambda: repr(x))):
            W.stateless({"op": "view", "be": "c", "o": m, "x": lit, "r": result(f)})
        for b in (0, 1):
            for y in (ht.Bit(b), ~ht.Bit(1 - b), ht.Bit(bool(b)), ht.BitVector[4](b << 2)[2], ht.Bit(b) & ht.Bit(1)):
                W.stateless({"op": "hasheq", "be": "c", "x": lit, "y": {"k": "bit", "be": "c", "b": b},
                             "r": result(lambda: hash(x) == hash(y))}, canary=False)
    s = [ht.SMTBit(), ht.SMTBit(1), ht.SMTBit() & ht.SMTBit()]
    for x in s:
        W.stateless({"op": "raises", "be": "s", "o": "bool(SMTBit)", "c": "TypeError", "r": result(lambda: bool(x))})
    # symbolic operands: the algebra under every assignment
    v = [ht.SMTBit() for _ in range(3)]
    for o1, o2 in it.product(["&", "|", "^", "==", "!="], repeat=2):
        for form in range(4):
            f = {0: lambda p, q, r: OPS[o2](OPS[o1](p, q), r), 1: lambda p, q, r: OPS[o2](p, OPS[o1](q, r)),
                 2: lambda p, q, r: OPS[o2](~p, OPS[o1](True, q)), 3: lambda p, q, r: OPS[o2](OPS[o1](p, 0), OPS[o1](1, r))}[form]
            expr, e = call(f, *v)
            if e is not None:
                W.stateless({"op": "bitexpr", "be": "s", "o": o1 + o2, "form": form, "o1": o1, "o2": o2, "p": 0, "q": 0, "s": 0, "r": exc_obs(e)})
                continue
            for p, q, r in it.product((0, 1), repeat=3):
                W.stateless({"op": "bitexpr", "be": "s", "o": o1 + o2, "form": form, "o1": o1, "o2": o2, "p": p, "q": q, "s": r,
                             "r": result(lambda: expr.substitute(*[(x, ht.SMTBit(k)) for x, k in zip(v, (p, q, r))]))})
    n = 400
    random.seed(SEED)
    s = [result(ht.Bit.random) for _ in range(n)]
    W.pick()
    W.emit({"op": "randbit", "be": "c", "r": {"k": "seq", "e": sorted({x.get("b", 9) for x in s})}})
    W.close()


if __name__ == "__main__":
    which = sys.argv[2]
    main({"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C08": c08}[which])
