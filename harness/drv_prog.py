"""Replays the histories TLC generated from spec/BVMachine.tla (C07, C11, C12)."""
import sys

from bvexec import *

which, enum, sim = sys.argv[2], sys.argv[3], sys.argv[4]


def programs(path):
    with open(path) as f:
        return [json.loads(l)["prog"] for l in f if l.strip()]


def flip_first_post(W, path_op="set"):
    pass


def canary_program(W, be):
    """a recorded history in which another register changed must be rejected"""
    x = {"k": "bv", "be": be, "t": "BV", "w": 4, "b": [1, 0, 0, 0]}
    y = {"k": "bv", "be": be, "t": "BV", "w": 4, "b": [1, 1, 0, 0]}
    x2 = {**x, "b": [1, 1, 0, 0]}
    y2 = {**y, "b": [1, 0, 0, 0]}
    W.pick()
    W.emit({"op": "reset"}, 0)
    W.emit({"op": "load", "be": be, "x": x, "d": 1, "r": x})
    W.emit({"op": "load", "be": be, "x": y, "d": 2, "r": y})
    W.emit({"op": "set", "be": be, "x": {"k": "reg", "i": 1}, "i": 1, "y": {"k": "int", "s": 0, "b": [1]}, "r": {"k": "none"},
            "post": [{"i": 1, "r": x2}, {"i": 2, "r": y2}], "canary": True})
    W.emit({"op": "reset"}, 0)


def lists(W):
    """Python lists that went in or came out do not share state with vectors"""
    R = random.Random(SEED)
    for T in ("BV", "UV", "SV"):
        for w in (1, 3, 8, 33):
            for _ in range(6):
                bits = [R.randrange(2) for _ in range(w)]
                W.pick()
                W.emit({"op": "reset"}, 0)
                src = list(bits)
                v = CT[T][w](src)
                lit = {"k": "bv", "be": "c", "t": T, "w": w, "b": bits}
                W.emit({"op": "load", "be": "c", "x": lit, "d": 1, "r": obs(v)})
                for i in range(w):
                    src[i] ^= 1
                W.emit({"op": "nop", "what": "source list changed", "post": [{"i": 1, "r": obs(v)}]})
                for m in ("bits", "as_bool_list"):
                    l = getattr(v, m)()
                    if isinstance(l, list):
                        for i in range(len(l)):
                            l[i] = 1 - l[i]
                        W.emit({"op": "nop", "what": m + " changed", "post": [{"i": 1, "r": obs(v)}]})
                    if isinstance(l, list) and l:
                        R.choice([l.clear, l.pop, l.reverse, lambda: l.append(1), lambda: None])()
                        for n in ("bits", "as_bool_list"):
                            u, e = call(getattr(v, n))
                            r = exc_obs(e) if e is not None else {"k": "seq", "e": [int(b) for b in u]} if isinstance(u, list) else obs(u)
                            W.emit({"op": "view", "be": "c", "o": n, "what": m + " changed", "x": {"k": "reg", "i": 1}, "r": r})
                        for o in ("binary_string", "as_uint", "as_sint"):
                            W.emit({"op": "view", "be": "c", "o": o, "x": {"k": "reg", "i": 1}, "r": result(getattr(v, o))})
                        i = R.randrange(w)
                        W.emit({"op": "get", "be": "c", "x": {"k": "reg", "i": 1}, "i": i, "r": result(lambda: v[i])})
                        W.emit({"op": "slice", "be": "c", "x": {"k": "reg", "i": 1}, "r": result(lambda: v[i:]),
                                "sl": {"hl": 1, "lo": i, "hh": 0, "hi": 0, "hs": 0, "step": 1}})
                for mk in (lambda: CT[T][w](v), lambda: CT["BV"][w](v), lambda: v.make_constant(v), lambda: ht.BitVector[w + 1](v)):
                    u, o = run(mk)
                    if u is None:
                        continue
                    W.emit({"op": "load", "be": "c", "x": o, "d": 2, "r": o})
                    i = R.randrange(w)
                    b = 1 - bits[i]
                    real_u = u
                    try:
                        real_u[i] = b
                        r = {"k": "none"}
                    except Exception as e:
                        r = exc_obs(e)
                    W.emit({"op": "set", "be": "c", "x": {"k": "reg", "i": 2}, "i": i, "y": int_obs(b), "r": r,
                            "post": [{"i": 1, "r": obs(v)}, {"i": 2, "r": obs(u)}]})


def c07(out):
    W = Writer(out)
    en, si = programs(enum), programs(sim)
    R = random.Random(SEED)
    for p in en:
        run_program(W, p, "c", look=R if R.random() < .25 or THOROUGH else None)
    for p in (en if THOROUGH else R.sample(en, min(len(en), 1600))):
        run_program(W, p, "s", cost=3, look=R if R.random() < .1 else None)
    for p in (en if THOROUGH else R.sample(en, min(len(en), 900))):
        if z3 is not None:
            run_program(W, p, "z", cost=3, look=R if R.random() < .1 else None)
    for i, p in enumerate(si):
        run_program(W, p, "c", post="all", look=R if i % 2 else None)
    for be in "csz" if z3 is not None else "cs":
        canary_program(W, be)
    lists(W)
    W.close()


def schemes(w, R):
    """every operation, operands x (width w), y (width w) and bit z"""
    for o in OPS:
        yield {"op": "bin", "o": o}
        yield {"op": "bin", "o": o, "y": int_obs(R.choice([0, 1, 2, w, (1 << w) - 1, 1 << w, -1, R.randrange(1 << w)]))}
        yield {"op": "bin", "o": o, "left": int_obs(R.choice([0, 1, 2, w, (1 << w) - 1, R.randrange(1 << w)]))}
    for o in ("bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvshl", "bvlshr", "bvashr", "bvadd", "bvsub", "bvmul",
              "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvcomp", "bveq", "bvne", "bvult", "bvule", "bvugt", "bvuge", "bvslt",
              "bvsle", "bvsgt", "bvsge"):
        yield {"op": "meth", "o": o}
    for o in ("bvrol", "bvror"):
        for n in {0, 1, w - 1, w, w + 1, 2 * w, (1 << w) - 1, 1 << w, (1 << w) + 1, R.randrange(1 << w)}:
            yield {"op": "meth", "o": o, "y": int_obs(n)}
    for o in ("~", "-", "bvnot", "bvneg"):
        yield {"op": "un", "o": o}
    for i in (range(-w - 1, w + 2) if w < 6 else {0, -1, w - 1, -w, w, -w - 1, R.randrange(w), -R.randrange(1, w)}):
        yield {"op": "get", "i": i}
    for _ in range(6 if w < 6 else 10):
        lo = R.randrange(w)
        hi = R.randint(lo + 1, w)
        yield {"op": "slice", "sl": {"hl": int(lo > 0 or R.random() < .5), "lo": lo if R.random() < .6 else lo - w,
                                     "hh": int(hi < w or R.random() < .5), "hi": hi if R.random() < .6 or hi == w else hi - w,
                                     "hs": R.randrange(2), "step": 1}}
    # each way of leaving out or counting from the end a bound
    for lo, hi in {(None, None), (-1, None), (-w, None), (None, -1), (0, None), (None, w), (w - 1, None), (-w, -1), (None, 1), (-(w + 1) // 2, None), (None, -(w // 2)), (w // 2, None)}:
        a, b = slice(lo, hi).indices(w)[:2]
        if a < b:
            yield {"op": "slice", "sl": {"hl": int(lo is not None), "lo": lo or 0, "hh": int(hi is not None), "hi": hi or 0, "hs": R.randrange(2), "step": 1}}
    yield {"op": "concat"}
    for o in ("zext", "sext", "ext", "repeat"):
        for n in (0, 1, 2, 5, -1):
            yield {"op": "ext", "o": o, "n": n}
    yield {"op": "adc"}
    yield {"op": "adc", "z": int_obs(R.randrange(2))}
    yield {"op": "bitite"}
    yield {"op": "vecite"}
    for t in ("BV", "UV", "SV", "NV", "MS"):
        for v in {w, w + 1, max(1, w - 1), 1, 2 * w}:
            yield {"op": "cons", "t": t, "w": v}
    for t in ("BV", "SV"):
        yield {"op": "cons", "t": t, "w": R.choice([1, w]), "xbit": 1}


FEW = [4, 16, 32, 65, 128]


def single(W, be, R):
    """one operation: the expression is built once over symbolic variables and
    observed under many assignments; constants are tried as well"""
    reg = {"x": {"k": "reg", "i": 1}, "y": {"k": "reg", "i": 2}, "z": {"k": "reg", "i": 3}}
    need = {"bin": "xy", "meth": "xy", "un": "x", "get": "x", "slice": "x", "concat": "xy", "ext": "x", "adc": "xyz",
            "bitite": "zxy", "vecite": "zxy", "cons": "x"}
    widths = [1, 2, 3, 4, 5, 8, 13, 16, 32, 33, 64, 65, 100, 128] if THOROUGH else [1, 2, 3, 5, 8, 33, 64] + FEW
    for w in widths:
        few = w in FEW and not THOROUGH     # fewer assignments
        for t in ("BV", "SV", "UV", "NV", "MB", "MS"):
            if few and t != ("SV" if w in (16, 65) else "BV"):
                continue
            if t in ("UV", "NV") and w not in (3, 8) or t in ("MB", "MS") and w not in (1, 8):
                continue
            T = TYPES[be][t][w]
            vals = [(a, b, c) for a in range(1 << w) for b in range(1 << w) for c in (0, 1)] if w <= 2 else []
            m = 1 << w
            cs = [0, 1, m - 1, m >> 1, (m >> 1) - 1, 2 % m, w % m, (w - 1) % m, (w + 1) % m]
            k = (24 if THOROUGH else 1 if few else 5)
            for sch in schemes(w, R):
                cost = 3 if sch.get("o") in ("*", "//", "%", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem") and w > 20 else 1
                e = dict(sch)
                left = e.pop("left", None)
                for f in need[e["op"]]:
                    e.setdefault(f, reg[f])
                if e["op"] == "vecite":
                    e["z"] = reg["x"]
                    if R.random() < .5:
                        e["x"], e["y"] = reg["y"], reg["x"]
                if e.pop("xbit", None):
                    e["x"] = reg["z"]
                if left is not None:
                    if be == "z":
                        continue
                    e["x"], e["y"] = left, reg["x"]
                sx, sy, sz = T(), T(), BIT[be]()
                bvobs.ENV_S.clear()
                bvobs.ENV_Z.clear()
                v, exc = call(thunk({**e, "be": be}, {1: sx, 2: sy, 3: sz}, be))
                vs = vals if vals and e["op"] not in ("get", "slice", "un", "ext", "cons") else \
                    [(a, R.randrange(m), R.randrange(2)) for a in range(m)] if w <= 3 and not vals else \
                    [(R.choice(cs), R.choice(cs), R.randrange(2)) for _ in range(k)] + \
                    [(R.getrandbits(w), R.getrandbits(w), R.randrange(2)) for _ in range(k)]
                if len(vs) > 24 and not THOROUGH:
                    vs = R.sample(vs, 24)
                for i, (a, b, c) in enumerate(vs):
                    lit = {1: bv_lit(be, t, w, a), 2: bv_lit(be, t, w, b), 3: {"k": "bit", "be": be, "b": c}}
                    ev = {**e, "be": be}
                    for f in ("x", "y", "z"):
                        if f in ev and ev[f]["k"] == "reg":
                            ev[f] = lit[ev[f]["i"]]
                    if exc is None:
                        if be == "s":
                            bvobs.ENV_S.update({sx.value: smt.BV(a, w), sy.value: smt.BV(b, w), sz.value: smt.Bool(bool(c))})
                        else:
                            bvobs.ENV_Z[:] = [(sx.value, z3.BitVecVal(a, w)), (sy.value, z3.BitVecVal(b, w)), (sz.value, z3.BoolVal(bool(c)))]
                        r = obs(v)
                        bvobs.ENV_S.clear()
                        bvobs.ENV_Z.clear()
                    else:
                        r = exc_obs(exc)
                    rc = result(thunk({**ev, **{f: inbe(ev[f], "c") for f in ("x", "y", "z") if f in ev}}, {}, "c"))
                    W.stateless({**ev, "mode": "symbolic", "r": r, "rc": rc}, cost)
                    if i % 4 == 0:
                        W.stateless({**ev, "mode": "constant", "r": result(thunk(ev, {}, be)), "rc": rc}, cost)
            # item assignment with a symbolic bit
            for _ in range(3 if not THOROUGH else 12):
                for i in {0, w - 1, -1, -w, R.randrange(w), w, -w - 1}:
                    a, c = R.getrandbits(w), R.randrange(2)
                    for mode in range(2):
                        v, b = (T(), BIT[be]()) if mode else (T(a), BIT[be](c))
                        if mode:
                            (bvobs.ENV_S.update({v.value: smt.BV(a, w), b.value: smt.Bool(bool(c))}) if be == "s" else
                             bvobs.ENV_Z.extend([(v.value, z3.BitVecVal(a, w)), (b.value, z3.BoolVal(bool(c)))]))

                        def f():
                            v[i] = b
                        r = result(f)
                        W.stateless({"op": "set", "be": be, "x": bv_lit(be, t, w, a), "i": i, "y": {"k": "bit", "be": be, "b": c}, "r": r,
                                     "after": obs(v)}, 1, canary=False)
                        bvobs.ENV_S.clear()
                        bvobs.ENV_Z.clear()


class Obj:
    """a number that is not an int"""
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


def constructors(W, be, R):
    """vectors made from Python data, from bits and from the solver's own terms"""
    for w in [1, 2, 3, 4, 5, 8, 13, 32, 33, 64, 65, 100] if THOROUGH else [1, 2, 3, 8, 33]:
        for t in ("BV", "NV", "UV", "SV", "MS"):
            U, m = TYPES[be][t], 1 << w
            T = U[w]

            def made(x, *fs):
                for how, f in fs:
                    W.stateless({"op": "cons", "be": be, "o": how, "t": t, "w": w, "x": x, "r": result(f)})
            for v in {0, 1, -1, m - 1, m, m + 1, m >> 1, -(m >> 1), -m, -m - 1, R.randrange(m), R.randrange(m, 4 * m), -R.randrange(4 * m)}:
                made(int_obs(v), ("int", lambda: T(v)), ("make_constant", lambda: T(1).make_constant(v)),
                     ("make_constant size", lambda: U[w + 2](1).make_constant(v, w)))
                made(int_obs(v, "obj"), ("obj", lambda: T(Obj(v))), ("make_constant obj", lambda: T().make_constant(Obj(v))))
                if abs(v) <= m:
                    W.stateless({"op": "implicit", "be": be, "t": t, "x": int_obs(v), "r": result(lambda: U(v))})
                    W.stateless({"op": "implicit", "be": be, "t": t, "x": int_obs(v, "obj"), "r": result(lambda: U(Obj(v)))})
            for b in (0, 1):
                made({"k": "bool", "b": b}, ("bool", lambda: T(bool(b))))
                W.stateless({"op": "implicit", "be": be, "t": t, "x": {"k": "bool", "b": b}, "r": result(lambda: U(bool(b)))})
            for n in {1, 2, 3, w - 1, w, w, w + 1} - {0}:
                for _ in range(3):
                    bits = [R.randrange(2) for _ in range(n)]
                    src = R.choice([lambda l: l, tuple, lambda l: list(map(bool, l)), lambda l: [BIT[be](b) for b in l],
                                    lambda l: [TYPES[be]["BV"][1](b) for b in l], lambda l: [R.choice([int, bool, BIT[be]])(b) for b in l]])(bits)
                    made({"k": "seq", "e": bits}, ("sequence", lambda: T(src)))
                    W.stateless({"op": "implicit", "be": be, "t": t, "x": {"k": "seq", "e": bits}, "r": result(lambda: U(src))})
            for junk in (None, object(), {1}, {}, 1j):
                made({"k": "junk"}, ("junk", lambda: T(junk)))
            # symbolic: the bits of a vector in another order, a vector of another width, the term itself
            x, z = T(), BIT[be]()
            order = [R.randrange(w) for _ in range(w)]
            cases = [("selected bits", lambda: T([x[i] for i in order]), lambda a, c: {"k": "seq", "e": [a >> i & 1 for i in order]}),
                     ("bits and constants", lambda: T([z] + [x[i] for i in order[1:]]), lambda a, c: {"k": "seq", "e": [c] + [a >> i & 1 for i in order[1:]]}),
                     ("same bits", lambda: T([x[i] for i in range(w)]), lambda a, c: bv_lit(be, t, w, a)),
                     ("term", lambda: T(x.value), lambda a, c: bv_lit(be, t, w, a)),
                     ("bit", lambda: T(z), lambda a, c: {"k": "bit", "be": be, "b": c}),
                     ("make_constant vector", lambda: T(0).make_constant(x), lambda a, c: bv_lit(be, t, w, a)),
                     ("make_constant bit", lambda: T(0).make_constant(z), lambda a, c: {"k": "bit", "be": be, "b": c})]
            for how, f, lit in cases:
                bvobs.ENV_S.clear()
                bvobs.ENV_Z.clear()
                v, exc = call(f)
                for _ in range(4):
                    a, c = R.randrange(m), R.randrange(2)
                    if be == "s":
                        bvobs.ENV_S.update({x.value: smt.BV(a, w), z.value: smt.Bool(bool(c))})
                    else:
                        bvobs.ENV_Z[:] = [(x.value, z3.BitVecVal(a, w)), (z.value, z3.BoolVal(bool(c)))]
                    r = obs(v) if exc is None else exc_obs(exc)
                    bvobs.ENV_S.clear()
                    bvobs.ENV_Z.clear()
                    W.stateless({"op": "cons", "be": be, "o": how, "t": t, "w": w, "x": lit(a, c), "r": r})
            # a term of another sort is no vector of this width
            other = TYPES[be]["BV"][w + 1]()
            made({"k": "junk"}, ("wider term", lambda: T(other.value)))
            W.stateless({"op": "implicit", "be": be, "t": t, "x": {"k": "junk"}, "r": result(lambda: U(object()))})
            for v in {1, w, w + 1}:
                c = R.getrandbits(v)
                y = TYPES[be][R.choice(("BV", "UV", "SV"))][v](c)
                W.stateless({"op": "implicit", "be": be, "t": t, "x": bv_lit(be, "BV", v, c), "r": result(lambda: U(y))})
    for b in (0, 1):
        for src, x in ((b, int_obs(b)), (bool(b), {"k": "bool", "b": b}), (BIT[be](b), {"k": "bit", "be": be, "b": b})):
            W.stateless({"op": "consbit", "be": be, "x": x, "r": result(lambda: BIT[be](src))})
    for bad in (2, -1, 5):
        W.stateless({"op": "consbit", "be": be, "x": int_obs(bad), "r": result(lambda: BIT[be](bad))})
    W.stateless({"op": "consbit", "be": be, "x": {"k": "junk"}, "r": result(lambda: BIT[be](object()))})


def refusals(W, be, R):
    """widths that are read off without a solver; calls that must be refused,
    over constants and over symbolic variables, and leave their operands alone"""
    V, B = TYPES[be]["BV"], BIT[be]
    if be == "s":
        vterms = [smt.BV(1, 1), smt.Symbol("refused_bv", smt.BVType(3)), smt.Int(1)]
    else:
        vterms = [z3.BitVecVal(1, 1), z3.BitVec("refused_bv", 3), z3.IntVal(0)]
    for w in [1, 2, 3, 7, 8, 16, 33, 64, 65]:
        for t in ("BV", "UV", "SV", "NV", "MS"):
            T = TYPES[be][t]
            a, c = R.getrandbits(w), R.randrange(2)
            for mode in (0, 1):
                x = T[w]() if mode else T[w](a)
                y = T[w]() if mode else T[w](R.getrandbits(w))
                b = B() if mode else B(c)
                lit = bv_lit(be, t, w, a)
                bvobs.ENV_S.clear()
                bvobs.ENV_Z.clear()

                def val(o, f):
                    W.stateless({"op": "view", "be": be, "o": o, "x": lit, "r": result(f)})

                def no(what, c, f, canary=True):
                    W.stateless({"op": "raises", "be": be, "c": c, "what": what, "t": t, "w": w, "r": result(f)}, canary=canary)

                def setitem(i, v):
                    def f():
                        x[i] = v
                    return f
                val("len", lambda: len(x))
                val("size", lambda: x.size)
                val("size", lambda: type(x).size)
                val("num_bits", lambda: x.num_bits)
                val("len", lambda: sum(1 for _ in x))
                no("set slice", "NotImplementedError", setitem(slice(0, 1), 1))
                for v in (2, -1, None, "1", [1], 1.0, x, T[1](1), object()):
                    no("set value", "ValueError", setitem(R.choice([0, -1, w - 1]), v))
                for i in {w, w + 1, -w - 1, 2 * w + 1, 1 << w}:
                    no("set index", "IndexError", setitem(i if i >= w or i < -w else w, R.choice([0, 1, True, b])))
                    no("get index", "IndexError", lambda: x[i if i >= w or i < -w else w])
                for i in ("a", None, 1.0, x, b, (0,)):
                    no("index type", "TypeError", lambda: x[i])
                    if isinstance(i, (str, tuple)) or i is None:
                        no("set index type", "TypeError", setitem(i, 1))
                for st in (2, -1, 3):
                    no("slice step", "IndexError", lambda: x[0:w:st])
                for o in (1, None, b, True, "a", [1], ht.BitVector[w](a), (ht.SMTBitVector if be == "z" else z3BitVectorOr(V))[w](a)):
                    no("concat", "TypeError", lambda: x.concat(o))
                # a less specific type is not accepted by a more specific one
                if t in ("UV", "SV", "NV", "MS"):
                    no("concat less specific", "TypeError", lambda: x.concat(V[w](a)))
                for o in ("zext", "sext", "ext", "repeat"):
                    no(o, "ValueError", lambda: getattr(x, o)(-R.randint(1, 9)))
                    no(o, "TypeError", lambda: getattr(x, o)(None))
                no("repeat", "ValueError", lambda: x.repeat(0))
                u = R.choice([w + 1, w + 9, max(1, w - 1) if w > 1 else 2])
                z = T[u]() if mode else T[u](0)
                bad = "InconsistentSizeError" if be == "s" else "TypeError"
                for o in OPS:
                    no("width " + o, bad, lambda: OPS[o](x, z))
                    no("width " + o, bad, lambda: OPS[o](z, x))
                for o in ("bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvshl", "bvlshr", "bvashr", "bvadd", "bvsub",
                          "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvcomp", "bveq", "bvne", "bvult", "bvule", "bvugt",
                          "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"):
                    no("width " + o, bad, lambda: getattr(x, o)(z))
                    no("junk " + o, "TypeError", lambda: getattr(x, o)(R.choice([None, object(), {}, 1j])))
                for o in OPS:
                    if o not in ("==", "!=") or be == "z":
                        no("junk " + o, "TypeError", lambda: OPS[o](x, R.choice([None, object(), {}, 1j])))
                no("adc width", bad, lambda: x.adc(z, b))
                no("adc carry", bad, lambda: x.adc(y, T[2](1)))
                no("adc junk", "TypeError", lambda: x.adc(R.choice([None, object()]), b))
                no("adc carry junk", "TypeError", lambda: x.adc(y, R.choice([None, object()])))
                no("ite width", bad, lambda: b.ite(x, z))
                no("int", "TypeError", lambda: int(x))
                # what was refused left the vector alone
                if mode:
                    if be == "s":
                        bvobs.ENV_S[x.value] = smt.BV(a, w)
                    else:
                        bvobs.ENV_Z[:] = [(x.value, z3.BitVecVal(a, w))]
                W.stateless({"op": "cons", "be": be, "o": "after refusals", "t": t, "w": w, "x": lit, "r": obs(x)})
                bvobs.ENV_S.clear()
                bvobs.ENV_Z.clear()
            for term in vterms:
                if w in (1, 3):
                    continue
                no("term of another sort", "TypeError", lambda: T[w](term))
        for v in (2, -1, w + 2):
            for o in ("&", "|", "^", "==", "!="):
                no("bit out of range", "ValueError", lambda: OPS[o](b, v))
            no("bit out of range", "ValueError", lambda: B(v))
    if be == "s":
        for term in vterms:
            no("bit from another sort", "TypeError", lambda: B(term))


def z3BitVectorOr(V):
    return TYPES["z"]["BV"] if z3 is not None else ht.BitVector


def selections(W, R):
    """z3Bit.ite over vectors, Python data and bits"""
    be = "z"
    for _ in range(1200 if THOROUGH else 260):
        w = R.choice([1, 2, 3, 8, 33])

        def branch(kind, env):
            v = R.randrange(1 << w)
            t = R.choice(("BV", "SV", "UV", "MB", "MS"))
            if kind == "const":
                return TYPES[be][t][w](v), bv_lit(be, t, w, v)
            if kind == "sym":
                x = TYPES[be][t][w]()
                env.append((x.value, z3.BitVecVal(v, w)))
                return x, bv_lit(be, t, w, v)
            if kind == "other":
                u = R.choice([1, w, w + 1])
                v %= 1 << u
                return TYPES[be][t][u](v), bv_lit(be, t, u, v)
            if kind == "int":
                v = R.choice([v, -v, 1 << w, v + (1 << w), 0])
                return v, int_obs(v)
            if kind == "obj":
                return Obj(v), int_obs(v, "obj")
            if kind == "bool":
                return bool(v & 1), {"k": "bool", "b": v & 1}
            if kind == "bit":
                x = BIT[be]()
                env.append((x.value, z3.BoolVal(bool(v & 1))))
                return x, {"k": "bit", "be": be, "b": v & 1}
            if kind == "seq":
                bits = [R.randrange(2) for _ in range(w)]
                return tuple(bits), {"k": "seq", "e": bits}
            return object(), {"k": "junk"}
        kinds = ["const", "sym", "sym", "other", "int", "int", "obj", "bool", "bit", "seq", "junk"]
        env = []
        (x, lx), (y, ly) = branch(R.choice(kinds), env), branch(R.choice(kinds), env)
        if R.random() < .3 and isinstance(x, TYPES[be]["BV"]):
            v = R.randrange(1 << lx["w"])
            y, ly = type(x)(v), bv_lit(be, lx["t"], lx["w"], v)
        c = R.randrange(2)
        z = BIT[be]()
        env.append((z.value, z3.BoolVal(bool(c))))
        if R.random() < .2:
            z = BIT[be](c)
        bvobs.ENV_Z.clear()
        v, exc = call(lambda: z.ite(x, y))
        bvobs.ENV_Z[:] = env
        r = obs(v) if exc is None else exc_obs(exc)
        bvobs.ENV_Z.clear()
        W.stateless({"op": "zite", "be": be, "z": {"k": "bit", "be": be, "b": c}, "x": lx, "y": ly, "r": r})


def sym(out):
    """C11: SMT, C12: z3; constants, then symbolic inputs; always beside the
    concrete operation on the same values"""
    be = "s" if which == "C11" else "z"
    W = Writer(out)
    R = random.Random(SEED)
    en, si = programs(enum), programs(sim)
    en = en if THOROUGH else R.sample(en, min(len(en), 500))
    for p in en:
        run_program(W, p, be, sym=True, companion=True, look=R if R.random() < .2 else None)
    h = len(si) * 2 // 3
    for p in si[:h]:
        run_program(W, p, be, companion=True)
    for p in si[h:]:
        run_program(W, p, be, sym=True, companion=True, post="set", cost=2, look=R if R.random() < .3 else None)
    canary_program(W, be)
    single(W, be, R)
    constructors(W, be, R)
    refusals(W, be, R)
    if be == "z":
        selections(W, R)
    W.close()


if __name__ == "__main__":
    main({"C07": c07, "C11": sym, "C12": sym}[which])
