"""Executes programs of the register machine (spec/BVMachine.tla) on the real
library: a backend with constants, a backend with symbolic inputs whose values
are substituted when a value is observed, and the concrete companion."""
import operator as op

import hwtypes as ht
import bvobs
from bvobs import *
from dlib import *

OPS = {"&": op.and_, "|": op.or_, "^": op.xor, "+": op.add, "-": op.sub, "*": op.mul, "<<": op.lshift, ">>": op.rshift,
       "//": op.floordiv, "%": op.mod, "==": op.eq, "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}


def num(x):
    v = sum(b << i for i, b in enumerate(x["b"]))
    return -v if x.get("s") else v


def real(be, x):
    """a literal abstract value in the backend"""
    k = x["k"]
    if k == "bv":
        return TYPES[be][x["t"]][len(x["b"])](num(x))
    if k == "bit":
        return BIT[be](x["b"])
    if k == "int":
        return pyint(num(x))
    if k == "zint":
        return ht.SMTInt(num(x))
    if k == "bool":
        return bool(x["b"])
    raise ValueError(k)


def fresh(be, x):
    """a symbolic input standing for the literal x"""
    if x["k"] == "bv":
        v = TYPES[be][x["t"]][len(x["b"])]()
        if be == "s":
            bvobs.ENV_S[v.value] = smt.BV(num(x), len(x["b"]))
        else:
            bvobs.ENV_Z.append((v.value, z3.BitVecVal(num(x), len(x["b"]))))
    elif x["k"] == "zint":
        v = ht.SMTInt()
        bvobs.ENV_S[v.value] = smt.Int(num(x))
    else:
        v = BIT[be]()
        if be == "s":
            bvobs.ENV_S[v.value] = smt.Bool(bool(x["b"]))
        else:
            bvobs.ENV_Z.append((v.value, z3.BoolVal(bool(x["b"]))))
    return v


def inbe(x, be):
    return {**x, "be": be} if "be" in x else x


def thunk(e, regs, be):
    """the call that event e describes"""
    def V(f):
        x = e[f]
        return regs[x["i"]] if x["k"] == "reg" else real(be, x)
    o = e["op"]
    if o == "bin" or o == "bitop":
        x, y = V("x"), V("y")
        return lambda: OPS[e["o"]](x, y)
    if o == "meth":
        x, y = V("x"), V("y")
        return lambda: getattr(x, e["o"])(y)
    if o == "un":
        x = V("x")
        f = {"~": op.invert, "-": op.neg}.get(e["o"]) or (lambda v: getattr(v, e["o"])())
        return lambda: f(x)
    if o == "get":
        x = V("x")
        i = pyint(e["i"])
        return lambda: x[i]
    if o == "slice":
        x, s = V("x"), e["sl"]
        sl = slice(pyint(s["lo"]) if s["hl"] else None, pyint(s["hi"]) if s["hh"] else None, pyint(s["step"]) if s["hs"] else None)
        return lambda: x[sl]
    if o == "concat":
        x, y = V("x"), V("y")
        return lambda: x.concat(y)
    if o == "ext":
        x = V("x")
        n = pyint(e["n"])
        return lambda: getattr(x, e["o"])(n)
    if o == "adc":
        x, y, z = V("x"), V("y"), V("z")
        return lambda: x.adc(y, z)
    if o in ("bitite", "vecite"):
        z, x, y = V("z"), V("x"), V("y")
        return lambda: z.ite(x, y)
    if o == "cons":
        x = V("x")
        return lambda: TYPES[be][e["t"]][e["w"]](x)
    if o == "load":
        return lambda: real(be, e["x"])
    if o == "ibin":
        x, y = V("x"), V("y")
        return lambda: OPS[e["o"]](x, y)
    if o == "ineg":
        x = V("x")
        return lambda: -x
    if o == "toint":
        x = V("x")
        return lambda: ht.SMTInt(x)
    if o == "iview":
        x = V("x")
        return lambda: getattr(x, e["o"])()
    raise ValueError(o)


READS = ("as_uint", "as_sint", "int", "str", "bool", "bits", "as_bool_list", "binary_string", "as_binary_string", "len", "repr", "value")


def looks(W, be, regs, i, R, which, cost):
    """reads of the vector in register i that change nothing: the same ones
    before and after it is assigned to"""
    x = {"k": "reg", "i": i}
    v = regs[i]
    if type(v) is BIT[be] or not hasattr(v, "concat"):
        return
    w = v.size
    if be == "c":
        f = view_fns(v)
        for m in which["views"]:
            W.emit({"op": "view", "be": be, "o": m, "x": x, "r": f[m]()}, cost)
        if which["hash"]:
            y = obs(v)
            if y["k"] == "bv":
                W.emit({"op": "hasheq", "be": be, "x": x, "y": y, "r": result(lambda: hash(v) == hash(real(be, y)))}, cost)
    for k in which["at"]:
        k = k % w
        W.emit({"op": "get", "be": be, "x": x, "i": k, "r": result(lambda: v[k])}, cost)
        W.emit({"op": "get", "be": be, "x": x, "i": k - w, "r": result(lambda: v[k - w])}, cost)
        W.emit({"op": "slice", "be": be, "x": x, "sl": {"hl": 1, "lo": k, "hh": 0, "hi": 0, "hs": 0, "step": 1}, "r": result(lambda: v[k:])}, cost)
    if which["ops"]:
        W.emit({"op": "un", "o": "~", "be": be, "x": x, "r": result(lambda: ~v)}, cost)
        W.emit({"op": "bin", "o": "==", "be": be, "x": x, "y": x, "r": result(lambda: v == v)}, cost)
        W.emit({"op": "ext", "o": "zext", "be": be, "x": x, "n": 1, "r": result(lambda: v.zext(1))}, cost)
        W.emit({"op": "meth", "o": "bvult", "be": be, "x": x, "y": x, "r": result(lambda: v.bvult(v))}, cost)


def run_program(W, prog, be, sym=False, companion=False, post="all", cost=1.0, look=None):
    """Replays prog, writing one event per step; look: a generator choosing
    reads to make around every item assignment."""
    W.pick()
    W.emit({"op": "reset"}, 0)
    bvobs.ENV_S.clear()
    bvobs.ENV_Z.clear()
    regs, conc = {}, {}
    last = {}

    def snapshot():
        return [{"i": i, "r": last_obs(i)} for i in sorted(regs)]

    def last_obs(i):
        return obs(regs[i])

    n = len(prog)
    try:
        for k, e in enumerate(prog):
            e = {**e, "be": be, **{f: inbe(e[f], be) for f in ("x", "y", "z") if f in e}}
            want_post = post == "all" or (post == "set" and (e["op"] == "set" or k == n - 1))
            if e["op"] == "set":
                v = regs[e["x"]["i"]]
                if look is not None:
                    which = {"views": look.sample(READS, 4), "hash": look.random() < .5, "at": [e["i"], look.randrange(64)], "ops": look.random() < .3}
                    seen = [i for i in sorted(regs) if i == e["x"]["i"] or look.random() < .2]
                    for i in seen:
                        looks(W, be, regs, i, look, which, cost)
                y = regs[e["y"]["i"]] if e["y"]["k"] == "reg" else real(be, e["y"])

                j = pyint(e["i"])

                def f():
                    v[j] = y
                r = result(f)
                ev = {**e, "r": r}
                if not want_post:
                    ev["after"] = obs(v)
                if companion:
                    o = obs(v)
                    if o["k"] == "bv":
                        conc[e["x"]["i"]] = real("c", o)
            else:
                if e["op"] == "load" and sym:
                    v = fresh(be, e["x"])
                    r = obs(v)
                else:
                    v, r = run(thunk(e, regs, be))
                ev = {**e, "r": r}
                if companion and e["op"] != "load":
                    ev["rc"] = result(thunk({**e, **{f: inbe(e[f], "c") for f in ("x", "y", "z") if f in e}}, conc, "c"))
                if r["k"] not in ("bv", "bit", "tup", "zint"):
                    W.emit(ev, cost)
                    return      # a wrong outcome kind: the rest of this history means nothing
                if "d2" in e:
                    if r["k"] != "tup" or len(v) != 2:
                        W.emit(ev, cost)
                        return
                    regs[e["d"]], regs[e["d2"]] = v
                    if companion:
                        conc[e["d"]], conc[e["d2"]] = (real("c", o) for o in r["e"])
                else:
                    regs[e["d"]] = v
                    if companion:
                        conc[e["d"]] = real("c", r)
            if want_post:
                ev["post"] = snapshot()
            W.emit(ev, cost)
            if e["op"] == "set" and look is not None:
                for i in seen:
                    looks(W, be, regs, i, look, which, cost)
            if any(p["r"]["k"] not in ("bv", "bit", "zint") for p in ev.get("post", ())):
                return
    finally:
        bvobs.ENV_S.clear()
        bvobs.ENV_Z.clear()
