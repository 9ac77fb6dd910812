"""Projection of bit vectors and bits of every backend onto abstract values."""
import re

import hwtypes as ht
from hwtypes import bit_vector as cbv
from hwtypes import smt_bit_vector as sbv
import pysmt.shortcuts as smt
from dlib import call, exc_obs, bits_of, int_obs

CT = {"BV": ht.BitVector, "NV": cbv.NumVector, "UV": ht.UIntVector, "SV": ht.SIntVector}
ST = {"BV": sbv.SMTBitVector, "NV": sbv.SMTNumVector, "UV": sbv.SMTUIntVector, "SV": sbv.SMTSIntVector}
try:
    from hwtypes import z3_bit_vector as zbv
    import z3
    ZT = {"BV": zbv.z3BitVector, "NV": zbv.z3NumVector, "UV": zbv.z3UIntVector, "SV": zbv.z3SIntVector}
    ZBit = zbv.z3Bit
except ImportError:     # z3 is optional for the library
    zbv = z3 = None
    ZT, ZBit = {}, ()


class Mixin:
    """an unrelated base class of user types"""
    def marked(self):
        return 5


def user_types(types):
    """types a user derives: they behave like the type derived from"""
    B, S, U = types["BV"], types["SV"], types["UV"]
    types["MB"] = type(B)("UserVector", (B, Mixin), {})
    types["MS"] = type(S)("UserSigned", (S,), {})
    types["MU"] = type(U)("UserUnsigned", (U, Mixin), {})


for _types in (CT, ST, ZT):
    if _types:
        user_types(_types)
TYPES = {"c": CT, "s": ST, "z": ZT}
NAMES = {"c": {v: k for k, v in CT.items()}, "s": {v: k for k, v in ST.items()}, "z": {v: k for k, v in ZT.items()}}
BIT = {"c": ht.Bit, "s": sbv.SMTBit, "z": ZBit}


def type_code(be, T):
    try:
        u = T.unsized_t
    except Exception:
        return "?" + getattr(T, "__name__", "?")
    c = NAMES[be].get(u)
    if c is None or u[T.size] is not T:
        return "?" + getattr(T, "__name__", "?")
    return c


def _bv(be, T, v):
    w = T.size
    if v is None:
        return {"k": "symbolic"}
    if v < 0:
        return {"k": "negative"}
    return {"k": "bv", "be": be, "t": type_code(be, T), "w": w, "b": bits_of(v, w)}


# values of the symbolic inputs while a symbolic run is observed
ENV_S = {}
ENV_Z = []


def smt_const(f):
    if ENV_S:
        f = f.substitute(ENV_S)
    f = smt.simplify(f)
    return f.constant_value() if f.is_constant() else None


def z3_simpl(f):
    if ENV_Z:
        f = z3.substitute(f, *ENV_Z)
    return z3.simplify(f)


def obs(x):
    """abstract value of a result (constant expressions only for the solvers)"""
    try:
        return _obs(x)
    except Exception as e:
        return {"k": "unobservable", "c": type(e).__name__}


def _obs(x):
    if isinstance(x, ht.Bit):
        return {"k": "bit", "be": "c", "b": int(bool(x))} if type(x) is ht.Bit else {"k": "bit?", "c": type(x).__name__}
    if isinstance(x, ht.BitVector):
        return _bv("c", type(x), x.as_uint())
    if isinstance(x, sbv.SMTBit):
        v = smt_const(x.value)
        if v is None:
            return {"k": "symbolic"}
        return {"k": "bit", "be": "s", "b": int(v)} if type(x) is sbv.SMTBit else {"k": "bit?", "c": type(x).__name__}
    if isinstance(x, sbv.SMTBitVector):
        v = smt_const(x.value)
        if v is not None and x.value.get_type().width != type(x).size:
            return {"k": "bv?", "c": "sort width differs from type"}
        return _bv("s", type(x), v)
    if zbv is not None and isinstance(x, zbv.z3Bit):
        v = z3_simpl(x.value)
        if not (z3.is_true(v) or z3.is_false(v)):
            return {"k": "symbolic"}
        return {"k": "bit", "be": "z", "b": int(z3.is_true(v))}
    if zbv is not None and isinstance(x, zbv.z3BitVector):
        v = z3_simpl(x.value)
        if v.sort().size() != type(x).size:
            return {"k": "bv?", "c": "sort width differs from type"}
        return _bv("z", type(x), v.as_long() if z3.is_bv_value(v) else None)
    if isinstance(x, ht.SMTInt):
        v = smt_const(x.value)
        return {"k": "symbolic"} if v is None else int_obs(v, "zint")
    if x is None:
        return {"k": "none"}
    if isinstance(x, bool):
        return {"k": "bool", "b": int(x)}
    if isinstance(x, int):
        return int_obs(x)
    if isinstance(x, str):
        return {"k": "str", "s": x}
    if isinstance(x, tuple):
        return {"k": "tup", "e": [obs(y) for y in x]}
    if x is NotImplemented:
        return {"k": "notimplemented"}
    return {"k": "other", "c": type(x).__name__}


def result(fn, *a, **k):
    v, e = call(fn, *a, **k)
    return exc_obs(e) if e is not None else obs(v)


def run(fn, *a, **k):
    """(real value or None, observation)"""
    v, e = call(fn, *a, **k)
    return (None, exc_obs(e)) if e is not None else (v, obs(v))


def bv_lit(be, t, w, v):
    return {"k": "bv", "be": be, "t": t, "w": w, "b": bits_of(v & ((1 << w) - 1), w)}


class Obj:
    """an object whose only conversion is __int__"""
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class Truth:
    """an object whose only conversion is __bool__"""
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return bool(self.v)


def make(be, t, w, v):
    return TYPES[be][t][w](v & ((1 << w) - 1))


def view_fns(x):
    """the views of a concrete vector, each as its observation"""
    def as_list(f):
        def g():
            v = f()
            if not isinstance(v, list) or not all(type(b) in (int, bool) for b in v):
                return None
            return v
        v, e = call(g)
        return exc_obs(e) if e is not None else ({"k": "seq", "e": [int(b) for b in v]} if v is not None else {"k": "other", "c": "not a list of bits"})

    def dec():
        s = str(x)
        return int_obs(int(s)) if str(int(s)) == s else {"k": "other", "c": s}

    def rep():
        s = repr(x)
        m = re.fullmatch(r"(.*)\((-?\d+)\)", s)
        return {"k": "repr", "n": m.group(1), "s": int(int(m.group(2)) < 0), "b": bits_of(abs(int(m.group(2))), 0)} if m else {"k": "other", "c": s}

    def safe(f):
        v, e = call(f)
        return exc_obs(e) if e is not None else v

    return {
        "as_uint": lambda: result(x.as_uint), "as_sint": lambda: result(x.as_sint), "as_int": lambda: result(x.as_int),
        "int": lambda: result(lambda: int(x)), "value": lambda: result(lambda: x.value), "str": lambda: safe(dec),
        "bool": lambda: result(lambda: bool(x)), "bits": lambda: as_list(x.bits), "as_bool_list": lambda: as_list(x.as_bool_list),
        "binary_string": lambda: result(x.binary_string), "as_binary_string": lambda: result(x.as_binary_string),
        "len": lambda: result(lambda: len(x)), "size": lambda: result(lambda: x.size), "num_bits": lambda: result(lambda: x.num_bits),
        "repr": lambda: safe(rep)}
