"""Symbolic values: substitution (C14), integers (C15), formula trees (C16)."""
import itertools as it
import sys

from bvexec import *
from hwtypes import SMTInt, SMTBit, SMTBitVector
from hwtypes.smt_utils import And, Or, Implies, FormulaConstructor

which, progs = sys.argv[2], sys.argv[3:]
R = random.Random(SEED)


def programs(path):
    with open(path) as f:
        return [json.loads(l)["prog"] for l in f if l.strip()]


def c14(out):
    W = Writer(out)
    for p in programs(progs[0]):
        subst(W, p)
    hand(W)
    W.close()


def expr_obs(x, env):
    bvobs.ENV_S.clear()
    bvobs.ENV_S.update(env)
    try:
        return obs(x)
    finally:
        bvobs.ENV_S.clear()


def assignments(loads, k):
    for j in range(k):
        a = []
        for x in loads:
            w = len(x["b"]) if x["k"] == "bv" else 1
            if j == 0:
                a.append(x)
            else:
                m = R.choice([R.getrandbits(w), 0, (1 << w) - 1, 1, 1 << (w - 1)])
                a.append({**x, "be": "s", "b": bits_of(m, w) if x["k"] == "bv" else m & 1})
        yield [inbe(x, "s") for x in a]


def subst(W, prog):
    n = sum(e["op"] == "load" for e in prog)
    loads, steps = [e["x"] for e in prog[:n]], prog[n:]
    steps = [{**e, "be": "s", **{f: inbe(e[f], "s") for f in ("x", "y", "z") if f in e}} for e in steps]
    V = [TYPES["s"][x["t"]][len(x["b"])]() if x["k"] == "bv" else SMTBit() for x in loads]
    regs = {i + 1: (type(v)(v)) for i, v in enumerate(V)}
    for e in steps:
        if e["op"] == "set":
            y = regs[e["y"]["i"]] if e["y"]["k"] == "reg" else real("s", e["y"])
            _, exc = call(regs[e["x"]["i"]].__setitem__, e["i"], y)
            if exc:
                return
            continue
        v, exc = call(thunk(e, regs, "s"))
        if exc:
            return          # judged by C11
        if "d2" in e:
            regs[e["d"]], regs[e["d2"]] = v
        else:
            regs[e["d"]] = v

    def shape(v):
        return 0 if isinstance(v, SMTBit) else v.size
    for _ in range(6 if THOROUGH else 3):
        froms = R.sample(range(n), R.randint(1, min(4, n)))
        subs, pairs = [], []
        for f in froms:
            cands = [i for i in regs if shape(regs[i]) == shape(V[f])]
            k = R.random()
            if k < 0.25:        # another variable (swaps, cycles)
                c2 = [i for i in range(n) if shape(V[i]) == shape(V[f])]
                t = R.choice(c2)
                key = 101 + t
                subs.append({"f": f + 1, "t": key})
                pairs.append((V[f], V[t]))
            elif k < 0.35:      # a constant
                subs.append({"f": f + 1, "t": 200 + f})
                lit = inbe({**loads[f], "b": [R.randrange(2) for _ in loads[f]["b"]] if loads[f]["k"] == "bv" else R.randrange(2)}, "s")
                subs[-1]["lit"] = lit
                pairs.append((V[f], real("s", lit)))
            elif cands:
                t = R.choice(cands)
                subs.append({"f": f + 1, "t": t})
                pairs.append((V[f], regs[t]))
        # variables and constants stay available in extra registers
        pre = [{"op": "cons" if x["k"] == "bv" else "un", "o": "copy", "be": "s", "t": x.get("t", ""), "w": len(x["b"]) if x["k"] == "bv" else 1,
                "x": {"k": "reg", "i": i + 1}, "d": 101 + i} for i, x in enumerate(loads)]
        pre += [{"op": "load", "be": "s", "x": s["lit"], "d": s["t"]} for s in subs if "lit" in s]
        for s in subs:
            s.pop("lit", None)
        xi = R.choice(sorted(regs))
        x = regs[xi]
        res, exc = call(x.substitute, *pairs)
        for a in assignments(loads, 8 if THOROUGH else 3):
            env = {v.value: (smt.BV(num(y), len(y["b"])) if y["k"] == "bv" else smt.Bool(bool(y["b"]))) for v, y in zip(V, a)}
            r = exc_obs(exc) if exc else expr_obs(res, env)
            after = [{"i": i, "r": expr_obs(regs[i], env)} for i in ([xi] + [s["t"] for s in subs if s["t"] in regs])]
            if "be" not in r:
                r["be"] = "s"
            if r["k"] == "bv" and r["w"] != shape(x):
                r["k"] = "bv of another size"
            after += [{"i": 101 + i, "r": expr_obs(V[i], env)} for i in R.sample(range(n), 2)]
            W.stateless({"op": "subst", "be": "s", "prog": pre + steps, "a": a, "subs": subs, "x": {"k": "reg", "i": xi}, "r": r,
                         "after": after, "o": "bit" if isinstance(x, SMTBit) else "vector"}, 10)


def hand(W):
    """the receiver and arguments are values of every kind, no pair, swap"""
    for w in (1, 4, 33):
        x, y, b = SMTBitVector[w](), SMTBitVector[w](), SMTBit()
        base = [{"k": "bv", "be": "s", "t": "BV", "w": w}, {"k": "bv", "be": "s", "t": "BV", "w": w}, {"k": "bit", "be": "s"}]
        forms = [([("bin", "+", 1, 2)], 4, lambda: x + y), ([("bin", "-", 1, 2)], 4, lambda: x - y),
                 ([("bin", "==", 1, 2)], 4, lambda: x == y), ([], 1, lambda: x), ([], 3, lambda: b),
                 ([("bitite", "", 1, 2)], 4, lambda: b.ite(x, y))]
        for st, xi, f in forms:
            steps = [{"op": o, "be": "s", "o": p, "x": {"k": "reg", "i": i}, "y": {"k": "reg", "i": j}, "z": {"k": "reg", "i": 3}, "d": 4}
                     for o, p, i, j in st]
            for subs, pairs in (([], []), ([{"f": 1, "t": 2}, {"f": 2, "t": 1}], [(x, y), (y, x)]), ([{"f": 1, "t": 2}], [(x, y)]),
                                ([{"f": 2, "t": 1}], [(y, x)]), ([{"f": 1, "t": 1}], [(x, x)])):
                v = f()
                res, exc = call(v.substitute, *pairs)
                for _ in range(3):
                    p, q, c = R.getrandbits(w), R.getrandbits(w), R.randrange(2)
                    a = [{**base[0], "b": bits_of(p, w)}, {**base[1], "b": bits_of(q, w)}, {**base[2], "b": c}]
                    env = {x.value: smt.BV(p, w), y.value: smt.BV(q, w), b.value: smt.Bool(bool(c))}
                    r = exc_obs(exc) if exc else expr_obs(res, env)
                    r.setdefault("be", "s")
                    W.stateless({"op": "subst", "be": "s", "prog": steps, "a": a, "subs": subs, "x": {"k": "reg", "i": xi}, "r": r,
                                 "after": [{"i": xi, "r": expr_obs(v, env)}], "o": "hand"}, 3)


class Num:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


def c15(out):
    W = Writer(out)
    ops = ["+", "-", "*", "//", "<", "<=", ">", ">=", "==", "!="]
    # programs generated from the specification, constants and variables
    ps = programs(progs[0])
    for i, p in enumerate(ps):
        run_program(W, p, "s", sym=bool(i % 3), post="all" if i % 6 == 0 else "none")
    z = lambda v: int_obs(v, "zint")
    rng = range(-9, 10)
    # one expression, all small assignments; Python integers on either side
    for o in ops:
        x, y = SMTInt(), SMTInt()
        expr, exc = call(lambda: OPS[o](x, y))
        for a in rng:
            xl, el = call(lambda: OPS[o](a, x))
            xr, er = call(lambda: OPS[o](x, a))
            for b in rng:
                if o != "//" or b:
                    W.stateless({"op": "ibin", "be": "s", "o": o, "mode": "symbolic", "x": z(a), "y": z(b),
                                 "r": exc_obs(exc) if exc else expr_obs(expr, {x.value: smt.Int(a), y.value: smt.Int(b)})})
                    W.stateless({"op": "ibin", "be": "s", "o": o, "mode": "left", "x": int_obs(a), "y": z(b),
                                 "r": exc_obs(el) if el else expr_obs(xl, {x.value: smt.Int(b)})})
                if o != "//" or a:
                    W.stateless({"op": "ibin", "be": "s", "o": o, "mode": "right", "x": z(b), "y": int_obs(a),
                                 "r": exc_obs(er) if er else expr_obs(xr, {x.value: smt.Int(b)})})
                if o != "//" or b:
                    W.stateless({"op": "ibin", "be": "s", "o": o, "mode": "constant", "x": z(a), "y": z(b),
                                 "r": result(lambda: OPS[o](SMTInt(a), SMTInt(b)))})
        for _ in range(300 if THOROUGH else 40):
            k = R.choice([8, 31, 32, 33, 63, 64, 65, 100])
            a, b = (R.choice([1, -1]) * R.choice([R.getrandbits(k), (1 << k) - 1, 1 << k, (1 << k) + 1, R.getrandbits(4)]) for _ in "ab")
            if o == "//" and b == 0:
                continue
            if o == "//" and R.random() < .4:
                a = b * R.randrange(-1000, 1000) + R.choice([0, 1, -1])
            W.stateless({"op": "ibin", "be": "s", "o": o, "mode": "constant", "x": z(a), "y": z(b),
                         "r": result(lambda: OPS[o](SMTInt(a), SMTInt(b)))}, 3)
            W.stateless({"op": "ibin", "be": "s", "o": o, "mode": "symbolic", "x": z(a), "y": z(b),
                         "r": exc_obs(exc) if exc else expr_obs(expr, {x.value: smt.Int(a), y.value: smt.Int(b)})}, 3)
            W.stateless({"op": "ibin", "be": "s", "o": o, "mode": "constant", "x": int_obs(a), "y": z(b),
                         "r": result(lambda: OPS[o](a, SMTInt(b)))}, 3)
        # operands of other kinds
        for j in ("x", None, [1], {}):
            jl = {"k": "junk"}
            W.stateless({"op": "ibin", "be": "s", "o": o, "x": z(3), "y": jl, "r": result(lambda: OPS[o](SMTInt(3), j))})
            if not (isinstance(j, (str, list)) and o in ("*", "+", "%")):
                W.stateless({"op": "ibin", "be": "s", "o": o, "x": jl, "y": z(3), "r": result(lambda: OPS[o](j, SMTInt(3)))})
        for v in (True, False):
            if o != "//":
                W.stateless({"op": "ibin", "be": "s", "o": o, "x": z(3), "y": {"k": "bool", "b": int(v)}, "r": result(lambda: OPS[o](SMTInt(3), v))})
                W.stateless({"op": "ibin", "be": "s", "o": o, "x": {"k": "bool", "b": int(v)}, "y": z(3), "r": result(lambda: OPS[o](v, SMTInt(3)))})
        W.stateless({"op": "ibin", "be": "s", "o": o, "x": z(-7), "y": int_obs(3, "obj"), "r": result(lambda: OPS[o](SMTInt(-7), Num(3)))})
        for w in (1, 3, 8):
            c = R.getrandbits(w) | 1
            W.stateless({"op": "ibin", "be": "s", "o": o, "x": z(-7), "y": bv_lit("s", "BV", w, c),
                         "r": result(lambda: OPS[o](SMTInt(-7), SMTBitVector[w](c)))})
    for v in list(range(-9, 10)) + [1 << 64, -(1 << 64), (1 << 100) - 1]:
        W.stateless({"op": "ineg", "be": "s", "x": z(v), "r": result(lambda: -SMTInt(v))})
        x = SMTInt()
        W.stateless({"op": "ineg", "be": "s", "x": z(v), "r": expr_obs(call(lambda: -x)[0], {x.value: smt.Int(v)})})
        for f, lit in ((v, int_obs(v)), (Num(v), int_obs(v, "obj")), (SMTInt(v), z(v)), (smt.Int(v), int_obs(v))):
            W.stateless({"op": "toint", "be": "s", "x": lit, "r": result(lambda: SMTInt(f))})
    # the solver's own terms: vectors become naturals, others are refused
    for w in (1, 4, 33):
        t = smt.Symbol(f"int_from_term_{w}", smt.BVType(w))
        for how, term, val_of in (("term", t, lambda a: a), ("compound term", smt.BVNot(t), lambda a: (1 << w) - 1 - a)):
            v, e = call(SMTInt, term)
            for a in [0, 1, (1 << w) - 1, R.getrandbits(w), R.getrandbits(w)]:
                a &= (1 << w) - 1
                W.stateless({"op": "toint", "be": "s", "mode": how, "x": bv_lit("s", "BV", w, val_of(a)),
                             "r": exc_obs(e) if e else expr_obs(v, {t: smt.BV(a, w)})})
    for term in (smt.TRUE(), smt.Symbol("int_from_bool"), smt.Real(1), smt.Symbol("int_from_real", smt.REAL), SMTBit().value):
        W.stateless({"op": "toint", "be": "s", "x": {"k": "junk"}, "r": result(lambda: SMTInt(term))})
    for j in ("x", None, {}, [1], "5"):
        W.stateless({"op": "toint", "be": "s", "x": {"k": "junk"}, "r": result(lambda: SMTInt(j))})
    # vectors
    for t in ("BV", "UV", "SV"):
        for w in [1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 128]:
            v = TYPES["s"][t][w]()
            es = {m: call(getattr(v, m)) for m in ("as_uint", "as_sint")}
            ei = call(lambda: SMTInt(v))
            vals = range(1 << w) if w <= 4 else [0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1] + [
                R.getrandbits(w) for _ in range(12)]
            for a in vals:
                lit = bv_lit("s", t, w, a)
                env = {v.value: smt.BV(a, w)}
                for m, (x, exc) in es.items():
                    W.stateless({"op": "iview", "be": "s", "o": m, "mode": "symbolic", "x": lit, "r": exc_obs(exc) if exc else expr_obs(x, env)})
                    W.stateless({"op": "iview", "be": "s", "o": m, "mode": "constant", "x": lit,
                                 "r": result(lambda: getattr(TYPES["s"][t][w](a), m)())})
                W.stateless({"op": "toint", "be": "s", "mode": "symbolic", "x": lit, "r": exc_obs(ei[1]) if ei[1] else expr_obs(ei[0], env)})
                W.stateless({"op": "toint", "be": "s", "mode": "constant", "x": lit, "r": result(lambda: SMTInt(TYPES["s"][t][w](a)))})
    W.close()


# ---------------------------------------------------------------------------
def build(prog, leaves):
    """replays a building program; some source lists are changed afterwards"""
    pool = list(leaves)
    spec = [{"k": "leaf", "f": i + 1, "s": x.value.serialize(), "kids": []} for i, x in enumerate(leaves)]
    for st in prog:
        ix = [i - 1 for i in st["ix"]]
        if st["k"] == "imp":
            pool.append(Implies(pool[ix[0]], pool[ix[1]]))
        else:
            src = [pool[i] for i in ix]
            t = (And if st["k"] == "and" else Or)(src)
            k = R.randrange(4)
            if k == 0:
                src.append(SMTBit(1))
            elif k == 1:
                src.clear()
            elif k == 2 and src:
                src[0] = ~SMTBit()
            pool.append(t)
        spec.append({"k": st["k"], "f": 0, "s": "", "kids": [spec[i] for i in ix]})
    return pool, spec


def deep_bit(vs):
    """a deeply nested formula that the solver does not flatten; no bit of
    its vectors matters but those that come from vs"""
    v = SMTBitVector[8](vs[0])
    for i in range(R.randrange(2, 9)):      # linear: the printed text is a tree
        c, n = R.choice(vs), R.randrange(1, 256)
        v = c.ite(R.choice([v + n, v * (n | 1), v ^ n, v - n]), SMTBitVector[8](R.randrange(256)))
    return v[R.randrange(8)]


def c16(out):
    W = Writer(out)
    nl = {0: 2, 1: 4}
    for which_, path in enumerate(progs):
        for prog in programs(path):
            n = nl[which_]
            vs = [SMTBit() for _ in range(max(1, n - R.randrange(2)))]
            leaves = list(vs)
            while len(leaves) < n:
                leaves.append(R.choice([lambda: ~vs[0], lambda: vs[0] & vs[-1], lambda: SMTBit(1), lambda: SMTBit(0), lambda: vs[-1] ^ vs[0],
                                        lambda: deep_bit(vs), lambda: deep_bit(vs)])())
            avs, envs = [], []
            for bits in it.product((0, 1), repeat=len(vs)):
                env = {v.value: smt.Bool(bool(b)) for v, b in zip(vs, bits)}
                envs.append(env)
                avs.append([expr_obs(x, env)["b"] for x in leaves])
            r = call(build, prog, leaves)
            if r[1] is not None:
                W.stateless({"op": "tree", "t": {"k": "leaf", "f": 1, "s": "", "kids": []}, "avs": avs, "prefix": "", "indent": "", "r": exc_obs(r[1])})
                continue
            pool, spec = r[0]
            for i in ([len(pool) - 1] if which_ == 0 else {len(pool) - 1, R.randrange(n, len(pool))}):
                t = pool[i]
                pi = R.choice([("", "|   ", None), ("", "|   ", None), ("> ", "  ", 1), ("", "", 1), ("\t", "..", 1)])

                def f():
                    text = t.serialize() if pi[2] is None else t.serialize(pi[0], pi[1]) if R.randrange(2) else \
                        t.serialize(line_prefix=pi[0], indent=pi[1])
                    b = t.to_hwtypes()
                    if type(b) is not SMTBit:
                        return {"k": "not a bit"}
                    vals = [expr_obs(b, env).get("b", -1) for env in envs]
                    # converting again, and after printing, gives the same
                    if t.to_hwtypes().value is not b.value or (t.serialize() if pi[2] is None else t.serialize(pi[0], pi[1])) != text:
                        return {"k": "unstable"}
                    return {"k": "formula", "vals": vals, "text": text}
                v, exc = call(f)
                W.stateless({"op": "tree", "o": spec[i]["k"], "t": spec[i], "avs": avs, "prefix": pi[0], "indent": pi[1],
                             "r": exc_obs(exc) if exc else v}, 1 + len(json.dumps(spec[i])) / 2000)
    a = SMTBit()
    for junk in (1, True, None, "x", SMTBitVector[1](), SMTInt(), ht.Bit(1), [SMTBit()], (SMTBit(),), 1.0, a.value):
        for mk, nm in ((lambda: And([junk]), "And"), (lambda: Or([a, junk]), "Or"), (lambda: And([And([]), junk, a]), "And2"),
                       (lambda: Implies(a, junk), "Imp"), (lambda: Implies(junk, a), "Imp2"), (lambda: Or([junk, a]), "Or2")):
            W.stateless({"op": "reject", "o": nm, "what": type(junk).__name__, "r": result(mk)})
    W.close()


if __name__ == "__main__":
    main({"C14": c14, "C15": c15, "C16": c16}[which])
