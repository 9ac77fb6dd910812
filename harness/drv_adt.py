"""Histories of making algebraic data types and modifiers (C22..C27)."""
import gc
import weakref
from collections import OrderedDict
from dlib import *
import hwtypes as hw
from hwtypes import modifiers as hm
from hwtypes.adt import Tuple, Product, Sum, Enum, TaggedUnion, AnonymousProduct, new_instruction
from hwtypes.adt_meta import TupleMeta, AnonymousProductMeta, ProductMeta, SumMeta, TaggedUnionMeta, EnumMeta, BoundMeta
from hwtypes import is_adt_type, adt_util
from hwtypes.util import TypedProperty

R = random.Random(SEED * 977 + PART)
LIB = {"tuple": Tuple, "sum": Sum, "anon": AnonymousProduct, "product": Product, "tu": TaggedUnion, "enum": Enum}
NAMES = {v: v.__name__ for v in LIB.values()}


class A:
    def __init__(self, x=0):
        self.x = x

    def __eq__(self, other):
        return type(self) is type(other) and self.x == other.x

    def __hash__(self):
        return hash(self.x)


class B(A.__base__):
    __init__, __eq__, __hash__ = A.__init__, A.__eq__, A.__hash__


class C(A):
    pass


class D(B):
    pass


class K(int):
    pass


def mix():
    """a class to stand beside a type among the bases"""
    return type("Mix", (), {"mixed": lambda self: 1})


LEAVES = {"A": A, "B": B, "C": C, "D": D, "int": int, "K": K}
for _n in ("AbstractBit", "Bit", "SMTBit", "z3Bit", "AbstractBitVector", "BitVector", "UIntVector", "SIntVector",
           "SMTBitVector", "SMTUIntVector", "SMTSIntVector", "z3BitVector", "z3UIntVector", "z3SIntVector"):
    if _n in ("AbstractBit", "AbstractBitVector"):
        from hwtypes import bit_vector_abc
        LEAVES[_n] = getattr(bit_vector_abc, _n)
    elif _n.startswith("z3"):
        from hwtypes import z3_bit_vector
        LEAVES[_n] = getattr(z3_bit_vector, _n)
    elif _n.startswith("SMT"):
        from hwtypes import smt_bit_vector
        LEAVES[_n] = getattr(smt_bit_vector, _n)
    else:
        LEAVES[_n] = getattr(hw, _n)
from hwtypes.bit_vector import NumVector
LEAVES["NumVector"] = NumVector
LEAFNAME = {v: k for k, v in LEAVES.items()}
FAMILY = {"BitVector": hw.BitVector, "SMTBitVector": LEAVES["SMTBitVector"], "z3BitVector": LEAVES["z3BitVector"]}
FAMILY = {k: v.get_family() for k, v in FAMILY.items()}


class Types:
    """names for type objects and modifiers, without keeping them alive"""
    def __init__(self):
        self.s = weakref.WeakKeyDictionary()
        self.n = 0

    def serial(self, t):
        if t not in self.s:
            self.n += 1
            self.s[t] = self.n
        return self.s[t]

    def label(self, m):
        return f"{m.__name__}#{self.serial(m)}"

    def tree(self, T):
        o = {"k": "other", "n": "", "sz": 0, "base": [], "o": [], "u": [], "id": 0, "at": "", "mods": []}
        if not isinstance(T, type):
            return {**o, "n": repr(T)[:60], "s": -1}
        o["s"] = self.serial(T)
        t, ms = hm.unwrap_modifier(T)
        o["mods"] = [self.label(m) for m in ms]
        if t in LEAFNAME:
            return {**o, "k": "leaf", "n": LEAFNAME[t]}
        if isinstance(t, type(LEAVES["AbstractBitVector"])) and t.is_sized and t.unsized_t in LEAFNAME:
            return {**o, "k": "leaf", "n": LEAFNAME[t.unsized_t], "sz": t.size}
        if not isinstance(t, BoundMeta):
            return {**o, "n": repr(t)[:60]}
        if t in NAMES:
            return {**o, "k": "U", "n": NAMES[t]}
        if not t.is_bound:
            b = [x for x in t.__bases__ if isinstance(x, BoundMeta)]
            return {**o, "k": "U", "n": t.__name__, "base": [self.tree(x) for x in b], "id": self.serial(t)}
        try:
            o["base"] = [self.tree(t.unbound_t)]
        except AttributeError:
            b = [x for x in t.__bases__ if isinstance(x, BoundMeta)]
            return {**o, "k": "derived", "n": t.__name__, "base": [self.tree(x) for x in b], "id": self.serial(t)}
        if not t.is_cached:
            o["id"] = self.serial(t)
        f = self.fields(t)
        o.update(k=f["k"], o=f["o"], u=f["u"])
        if f["k"] in ("product", "tu", "enum"):
            o["n"] = t.__name__
            o["at"] = t.__dict__.get("DOC", "")
        return o

    def fields(self, t):
        """the fields of a bound type"""
        o = {"k": "", "n": "", "sz": 0, "base": [], "o": [], "u": [], "id": 0, "at": "", "mods": []}
        k = kind(t)
        o["k"] = k
        if k == "tuple":
            o["o"] = [{"n": "", "t": self.tree(x)} for x in t.fields]
        elif k in ("anon", "product"):
            o["o"] = [{"n": n, "t": self.tree(x)} for n, x in t.field_dict.items()]
        elif k == "sum":
            o["u"] = [{"n": "", "t": self.tree(x)} for x in t.fields]
        elif k == "tu":
            o["u"] = [{"n": n, "t": self.tree(x)} for n, x in t.field_dict.items()]
        elif k == "enum":
            o["u"] = [{"n": n, "t": self.value(x._value_)} for n, x in t.field_dict.items()]
        return o

    def value(self, v):
        n = f"auto{self.serial(v)}" if isinstance(v, EnumMeta.Auto) else repr(v)
        return {"k": "leaf", "n": n, "sz": 0, "base": [], "o": [], "u": [], "id": 0, "at": "", "mods": [], "s": -2}


def kind(t):
    for k, m in (("tu", TaggedUnionMeta), ("sum", SumMeta), ("enum", EnumMeta), ("product", ProductMeta), ("anon", AnonymousProductMeta), ("tuple", TupleMeta)):
        if isinstance(t, m):
            return k
    return "leaf"


def nodes(T):
    """a type and all it is made of"""
    t, _ = hm.unwrap_modifier(T)
    yield t
    if isinstance(t, BoundMeta) and t.is_bound and kind(t) != "enum":
        for f in t.fields:
            yield from nodes(f)


def unbound_inside(T):
    return any(isinstance(t, BoundMeta) and not t.is_bound for t in nodes(T))


def agree(t):
    """the ways to ask a bound type for its fields say the same"""
    k = kind(t)
    fs, fd = t.fields, t.field_dict
    if not isinstance(t, type) or len(fs) != len(fd) and k != "tu":
        return 0
    if k == "tuple":
        ok = list(fd) == list(range(len(fs))) and list(fd.values()) == list(fs) and all(t[i] is f for i, f in enumerate(fs))
        ok = ok and list(fs) == list(t[:]) and (not fs or t[-1] is fs[-1])
    elif k in ("anon", "product"):
        ok = list(fd.values()) == list(fs) and all(t[i] is f for i, f in enumerate(fs)) and all(getattr(t, n) is f for n, f in fd.items())
        if k == "product":
            ok = ok and all(t[n] is f for n, f in fd.items())
    elif k == "sum":
        ok = set(fd) == set(fs) and all(fd[f] is f for f in fs) and all(f in t and t[f] is f for f in fs)
    elif k == "tu":
        ok = set(fd.values()) == set(fs) and all(getattr(t, n) is f for n, f in fd.items()) and all(f in t and t[f] is f for f in fs)
    else:
        ok = set(map(id, fd.values())) == set(map(id, fs)) and all(getattr(t, n) is f for n, f in fd.items())
    try:
        fd["a"] = int
        return 0
    except TypeError:
        return int(ok)


class Run:
    seen = set()

    def __init__(self, W):
        self.W = W
        self.T = Types()
        self.regs = {}
        self.mods = {}
        self.auto = new_instruction()

    def get(self, i):
        return self.regs[i]

    def emit(self, e, cost=1.0):
        self.W.emit(e, cost)
        key = (e["op"], e["r"].get("k"))
        if key not in Run.seen and e["op"] != "drop":
            Run.seen.add(key)
            for r in spoil(e):
                c = {k: v for k, v in e.items() if k != "dst"}
                c.update(r=r, canary=True)
                self.W.emit(c, cost)

    def type_op(self, op, fn, dst=None, **kw):
        v, e = call(fn)
        if e is None and not isinstance(v, type):
            e = RuntimeError("not a type")
        r = {"k": "type", "t": self.T.tree(v)} if e is None else exc_obs(e)
        ev = {"op": op, "r": r, **kw}
        if e is None and dst is not None:
            self.regs[dst] = v
            ev["dst"] = dst
        self.emit(ev, 3)

    def U(self, st):
        return self.regs[st["un"]] if st["un"] else LIB[st["kind"]]

    def step(self, st):
        a, d = st["a"], st.get("dst")
        x = list(st.get("x", ()))
        ts = [self.regs[i] for i in x if i in self.regs]
        if len(ts) != len(x):
            return
        if a == "leaf":
            t = LEAVES[st["n"]]
            self.type_op("leaf", lambda: t[st["sz"]] if st["sz"] else t, d, n=st["n"], sz=st["sz"])
        elif a == "index":
            if st["un"] and st["un"] not in self.regs:
                return
            U, k = self.U(st), st["kind"]
            ns = st["names"][:len(ts)]
            if k == "tuple":
                idx = R.choice([tuple, list])(ts)
                f = lambda: U[idx] if len(ts) != 1 or R.random() < .5 else U[ts[0]]
            elif k == "sum":
                idx = R.choice([tuple, list, set, frozenset])(ts)
                if isinstance(idx, tuple) and R.random() < .3:
                    idx = idx[::-1] + idx[:1]
                f = lambda: U[idx] if len(ts) != 1 or R.random() < .5 else U[ts[0]]
            else:
                idx = R.choice([dict, OrderedDict])(zip(ns, ts))
                f = lambda: U[idx]
            self.type_op("index", f, d, kind=k, un=st["un"], x=x, names=ns)
        elif a == "define":
            if st["un"] and st["un"] not in self.regs:
                return
            ns = st["names"][:len(ts)]
            items = list(zip(ns, ts))
            if st["kind"] == "tu" and R.random() < .5:
                items = items[::-1]
            self.type_op("define", lambda: self.make(self.U(st), st, items), d, kind=st["kind"], un=st["un"], x=x, names=ns, cache=st["cache"], name=st["name"])
        elif a == "enum":
            if st["un"] and st["un"] not in self.regs:
                return
            ns = ["p", "q", "r"][:st["n"]]
            vs = [self.fresh() if st["auto"] and i == 0 else v for i, v in enumerate(st["vs"][:st["n"]])]
            items = list(zip(ns, vs))
            if st["rot"]:
                items = items[1:] + items[:1]
            self.type_op("enum", lambda: self.make(self.regs[st["un"]] if st["un"] else Enum, st, items), d, kind="enum", un=st["un"], names=ns,
                         values=[self.T.value(v)["n"] for v in vs], cache=st["cache"], name=st["name"])
        elif a == "redo":
            if not isinstance(ts[0], BoundMeta) or hm.is_modified(ts[0]) or kind(ts[0]) != st["kind"] or not ts[0].is_bound or st["un"] and st["un"] not in self.regs:
                return
            self.redo(ts, st, x, d)
        elif a == "unbound":
            if st["un"] and st["un"] not in self.regs:
                return
            self.unbound(self.U(st), st, d)
        elif a == "derive":
            if not isinstance(ts[0], BoundMeta) or not ts[0].is_bound or kind(ts[0]) == "enum" or hm.is_modified(ts[0]):
                return
            self.type_op("derive", lambda: self.derived(ts[0]), d, x=x, name="Derived")
        elif a == "mkmod":
            v, e = call(lambda: hm.make_modifier(st["name"], cache=bool(st["cache"])))
            r = exc_obs(e) if e else {"k": "mod", "m": self.T.label(v), "is": int(hm.is_modifier(v))}
            if e is None:
                self.mods[st["m"]] = v
            self.emit({"op": "mkmod", "m": st["m"], "name": st["name"], "cache": st["cache"], "r": r})
        elif a == "mod":
            if st["m"] in self.mods:
                self.type_op("mod", lambda: self.mods[st["m"]](ts[0]), d, m=st["m"], x=x)
        elif a == "wrap":
            if all(m in self.mods for m in st["ms"]):
                self.type_op("wrap", lambda: hm.wrap_modifier(ts[0], [self.mods[m] for m in st["ms"]]), d, ms=list(st["ms"]), x=x)
        elif a == "unwrap":
            self.type_op("unwrap", lambda: hm.unwrap_modifier(ts[0])[0], d, x=x)
        elif a == "unwrap1":
            self.type_op("unwrap1", lambda: hm.get_unmodified(ts[0]), None, x=x)
        elif a == "rebind":
            t, P, Q = ts
            if not isinstance(t, BoundMeta):
                return
            args, kw = [], {}
            sub, rec = bool(st["sub"]), bool(st["rec"])
            if R.random() < .5:
                args = [sub] if rec and R.random() < .5 else [sub, rec]
            else:
                kw = {"rebind_sub_types": sub, "rebind_recursive": rec}
                if not sub and R.random() < .5:
                    del kw["rebind_sub_types"]
                if rec and R.random() < .5:
                    del kw["rebind_recursive"]
            self.type_op("rebind", lambda: t.rebind(P, Q, *args, **kw), d, x=x, sub=st["sub"], rec=st["rec"])
        elif a == "rebind_bv":
            F0, F1 = LEAVES[st["f0"]], LEAVES[st["f1"]]
            kw = {"keep_modifiers": True} if st["keep"] else R.choice([{}, {"keep_modifiers": False}])
            self.type_op("rebind_bv", lambda: adt_util.rebind_bitvector(ts[0], F0, F1, **kw), d, x=x, f0=st["f0"], f1=st["f1"], keep=st["keep"])
        elif a == "rebind_keep":
            self.type_op("rebind_keep", lambda: adt_util.rebind_keep_modifiers(*ts), d, x=x)
        elif a == "rebind_type":
            self.type_op("rebind_type", lambda: adt_util.rebind_type(ts[0], FAMILY[st["fam"]]), d, x=x, fam=st["fam"])
            # what is no type comes back as it is
            for v in R.sample([5, "Bit", None, 1.5, (), A], 2):
                got, e = call(lambda: adt_util.rebind_type(v, FAMILY[st["fam"]]))
                self.emit({"op": "untouched", "r": {"k": "same", "y": int(got is v)} if e is None else exc_obs(e)})
        elif a == "strip":
            self.type_op("strip", lambda: hm.strip_modifiers(ts[0]), d, x=x)
        elif a == "push":
            self.type_op("push", lambda: hm.push_modifiers(ts[0]), d, x=x)
        elif a == "both":
            v, e = call(lambda: hm.strip_modifiers(hm.push_modifiers(ts[0])) is hm.strip_modifiers(ts[0]))
            self.emit({"op": "both", "x": x, "r": {"k": "same", "y": int(v)} if e is None else exc_obs(e)})
        elif a == "drop":
            self.regs.pop(x[0])
            ts.clear()
            self.W.emit({"op": "drop", "x": x})
        elif a == "gc":
            gc.collect()
        elif a in ("enumerate", "members", "visit", "report", "modreport", "isadt", "bad", "body"):
            getattr(self, a)(x, ts[0])

    def unbound(self, U, st, d):
        """a constructor of one's own, with or without other classes beside, or by modifiers.new"""
        w = R.randrange(6)
        if w < 4:
            f = lambda: type(U)("Mine", [(U,), (U,), (mix(), U), (U, mix())][w], {})
        else:
            kw = {"name": "Mine"} if w == 4 else {"name": "Mine", "module": "elsewhere"}
            f = lambda: hm.new(U, **kw)
            if kind(U) in ("tuple", "anon", "sum") and R.random() < .6:
                return self.new_bound(U, st, d, kw)
        self.type_op("unbound", f, d, kind=st["kind"], un=st["un"], name="Mine")
        if w == 5:
            t = self.regs.get(d)
            self.emit({"op": "untouched", "r": {"k": "same", "y": int(getattr(t, "__module__", None) == "elsewhere")}})

    def new_bound(self, U, st, d, kw):
        """modifiers.new makes a constructor and binds it"""
        k = kind(U)
        js = [j for j in self.regs if j not in (d, d + 1000)]
        if not js:
            return
        x = [R.choice(js) for _ in range(R.randrange(1, 4))]
        ts = [self.regs[j] for j in x]
        ns = ["a", "b", "c"][:len(ts)]
        idx = dict(zip(ns, ts)) if k == "anon" else tuple(ts)
        v, e = call(lambda: hm.new(U, idx, **kw))
        u, e2 = (None, e) if e else call(lambda: v.unbound_t)
        if e2:
            self.emit({"op": "unbound", "kind": k, "un": st["un"], "name": "Mine", "r": exc_obs(e2)})
            return
        self.type_op("unbound", lambda: u, d, kind=k, un=st["un"], name="Mine")
        self.type_op("index", lambda: v, d + 1000, kind=k, un=d, x=x, names=ns)

    def derived(self, t):
        w = R.randrange(4)
        if w == 3:
            return hm.new(t, name="Derived")
        return type(t)("Derived", [(t,), (mix(), t), (t, mix())][w], {"extra": lambda self: 1})

    def body(self, x, t):
        """a class body with all sorts of entries"""
        meta = R.choice([Product, Product, TaggedUnion, Enum])
        fns = [lambda self: 1, lambda self: 2]
        entry = {"type": lambda: R.choice([int, A, hw.Bit, hw.BitVector[2], t]), "int": lambda: R.choice([0, 5]), "bool": lambda: R.choice([True, False]),
                 "str": lambda: "s", "none": lambda: None, "auto": lambda: self.auto, "tuple": lambda: (int, 1), "function": lambda: fns[0],
                 "property": lambda: property(fns[0]), "static": lambda: staticmethod(fns[0]), "descriptor": lambda: TypedProperty(int)(fns[0])}
        names = R.sample(["a", "b", "cls", "_b", "c_", "_d_", "_", "__", "___", "____", "_____", "__f", "g__", "__h_", "_i__", "_j_k_", "x1", "__e__", "__l_m__", "___n___", "__o___", "value", "name_"], R.randrange(1, 6))
        kinds = [R.choice(["type"] * 3 + ["int"] * 3 + list(entry)) for _ in names]
        vals = [entry[q]() for q in kinds]
        if meta is Enum and "value" in names:
            return
        cache = R.randrange(2)
        ns = dict(zip(names, vals))
        mk = lambda ns: type(meta)("Body", (meta,), dict(ns), **({} if cache and R.random() < .5 else {"cache": bool(cache)}))
        v, e = call(mk, ns)
        items = [{"n": n, "cs": list(n), "v": q} for n, q in zip(names, kinds)]
        if e:
            r = exc_obs(e)
        else:
            fd = dict(v.field_dict) if v.is_bound else {}
            same = []
            for n, q in ns.items():
                if n in fd:
                    got, e = call(lambda: fd[n]._value_ if meta is Enum else fd[n])
                else:
                    got, e = call(lambda: v.__dict__[n])
                same.append(int(e is None and got is q))
            again, _ = call(mk, ns)
            other = [int(call(mk, {**ns, n: staticmethod(fns[1]) if q == "static" else fns[1]})[0] is v) for n, q in zip(names, kinds) if q in ("function", "static")]
            r = {"k": "body", "bound": int(v.is_bound), "fields": list(fd), "same": same, "again": int(again is v), "other": other}
        self.emit({"op": "body", "kind": kind(meta), "cache": cache, "items": items, "r": r}, 2)

    def redo(self, ts, st, x, d):
        """a definition again, from what the type says of itself"""
        t, e, k = ts[0], st["e"], st["kind"]
        try:
            U = t.unbound_t
        except AttributeError:
            return
        if e["var"] == "base":
            U = self.U(st)
        fd = t.field_dict
        if k == "enum":
            items = [(n, m._value_) for n, m in fd.items()]
        elif k == "sum":
            items = [("", f) for f in t.fields]
        else:
            items = list(fd.items())
        q = e["p"] - 1 if k in ("tuple", "anon", "product") else next((i for i, f in enumerate(items) if f[0] == e["fn"] and k != "sum"), 99)
        new = list(items)
        var = e["var"]
        if var == "reverse":
            new = items[::-1]
        elif var == "type" and k == "sum":
            new = items + [("", ts[1])]
        elif q < len(items):
            if var == "type":
                new[q] = (items[q][0], 7 if k == "enum" else ts[1])
            elif var == "field" and k != "tuple" and "zz" not in fd:
                new[q] = ("zz", items[q][1])
            elif var == "drop" and len(items) > 1:
                del new[q]
        # as it was defined, or with one thing different
        attr = k in ("product", "tu", "enum")
        cache = t.is_cached != (var == "cache" and attr)
        doc = e["at"] if var == "at" else t.__dict__.get("DOC", "")
        name = e["name"] if var == "name" else t.__name__

        def make():
            if k == "tuple" or k == "sum":
                return U[tuple(f for _, f in new)]
            if k == "anon":
                return U[dict(new)]
            kw = {} if cache and R.random() < .5 else {"cache": cache}
            if doc or st["how"] == "class":
                return type(U)(name, (U,), {**dict(new), **({"DOC": doc} if doc else {})}, **kw)
            return U.from_fields(name, dict(new), **kw)
        self.type_op("redo", make, d, x=x, e=e, un=st["un"], kind=k)

    def fresh(self):
        if R.random() < .5:
            return self.auto
        return new_instruction()

    def make(self, U, st, items):
        kw = {} if st["cache"] > 1 else {"cache": bool(st["cache"])}
        if st["how"] == "class":
            ns = {"__module__": __name__, "__qualname__": st["name"], **dict(items)}
            return type(U)(st["name"], (U,), ns, **kw)
        if st["cache"] == 3:
            kw = {"cache": None}
        return U.from_fields(st["name"], R.choice([dict, OrderedDict])(items), **kw)

    def report(self, x, t):
        u, _ = hm.unwrap_modifier(t)
        r = {"k": "report", "sub": [{"j": j, "y": int(issubclass(t, s))} for j, s in self.regs.items()], "adt": int(is_adt_type(t))}
        if isinstance(t, BoundMeta):
            r.update(bound=int(t.is_bound), cached=int(t.is_cached))
            v, e = call(lambda: t.unbound_t)
            r["un"] = exc_obs(e) if e else {"k": "type", "t": self.T.tree(v)}
            if t.is_bound:
                r["fields"] = self.T.fields(t)
                r["agree"] = agree(t)
        self.emit({"op": "report", "x": x, "r": r}, 4)

    def modreport(self, x, t):
        def q(f):
            v, e = call(f)
            return exc_obs(e)["c"] if e else v
        v = None
        if not isinstance(t, BoundMeta) and "Abstract" not in t.__name__ and getattr(t, "is_sized", True):
            v = call(t, 0)[0]
        elif isinstance(t, BoundMeta) and t.is_bound and kind(t) not in ("enum", "sum") and not unbound_inside(t):
            v = call(lambda: next(iter(t.enumerate())))[0]
        un, ms = hm.unwrap_modifier(t)
        w, e = call(lambda: hm.wrap_modifier(un, ms))
        r = {"k": "modreport", "is": int(hm.is_modified(t)), "get": q(lambda: self.T.label(hm.get_modifier(t))),
             "all": [self.T.label(m) for m in hm.get_all_modifiers(t)], "unwrap": [self.T.label(m) for m in ms], "un": self.T.tree(un),
             "wrapped": 2 if isinstance(e, TypeError) else int(e is None and w is t),
             "sub": [{"m": self.T.label(m), "y": int(issubclass(t, m))} for m in self.mods.values()],
             "inst": [] if v is None else [{"m": self.T.label(m), "y": int(isinstance(v, m))} for m in self.mods.values()],
             "modifier": int(hm.is_modifier(t)), "abstract": int(v is not None and isinstance(v, hm.AbstractModifier))}
        self.emit({"op": "modreport", "x": x, "r": r}, 2)

    def isadt(self, x, t):
        self.emit({"op": "isadt", "x": x, "r": {"k": "isadt", "y": int(is_adt_type(t))}})
        o = R.choice([None, 5, "a", (), TupleMeta, (int, int), Product, Sum, Enum.__class__, type, object, hw.FPVector])
        o, ex = o, o in (Product, Sum)
        if not ex:
            self.emit({"op": "isadt", "o": repr(o), "r": {"k": "isadt", "y": int(is_adt_type(o))}})

    # values ---------------------------------------------------------------
    def val(self, v, ty):
        t = type(v)
        ty[self.T.serial(t)] = t
        o = {"s": self.T.serial(t), "tag": "", "o": []}
        k = kind(t)
        if k == "enum":
            o["tag"] = v.name
        elif k in ("tuple", "anon", "product"):
            o["o"] = [self.val(v[i], ty) for i in range(len(t.fields))]
        elif k == "sum":
            m = [f for f in t.fields if v[f].match]
            o["o"] = [self.val(v[f].value, ty) for f in m]
            o["tag"] = "" if [type(v[f].value) for f in m] == m else "wrong alternative"
        elif k == "tu":
            m = [n for n in t.field_dict if getattr(v, n).match]
            o["tag"] = ",".join(m)
            o["o"] = [self.val(getattr(v, n).value, ty) for n in m]
        else:
            o["tag"] = str(int(v.x if isinstance(v, (A, B)) else v))
        return o

    def enumerate(self, x, t):
        if not (isinstance(t, BoundMeta) and t.is_bound) or unbound_inside(t):
            return
        vs, e = call(lambda: list(t.enumerate()))
        if e:
            r, ty = exc_obs(e), {}
        else:
            ty = {}
            r = {"k": "values", "v": [self.val(v, ty) for v in vs],
                 "eq": [[i + 1, j + 1, int(hash(vs[i]) == hash(vs[j]))] for i in range(len(vs)) for j in range(i) if vs[i] == vs[j]],
                 "ne": [[i + 1, j + 1] for i in range(len(vs)) for j in range(i) if not (vs[i] != vs[j])]}
        self.emit({"op": "enumerate", "x": x, "types": [self.T.tree(q) for q in ty.values()], "r": r}, 4)

    def members(self, x, t):
        if kind(t) != "enum" or not t.is_bound or hm.is_modified(t):
            return
        ms = []
        for n, m in t.field_dict.items():
            again = getattr(t, n) is m and t(m) is m and any(m is z for z in t.fields) and any(m is z for z in t.enumerate())
            ms.append({"n": n, "name": m.name, "value": self.T.value(m.value)["n"], "inst": int(isinstance(m, t) and type(m) is t), "repr": repr(m), "again": int(again)})
        eq = [{"a": a, "b": b, "y": int(p == q), "ne": int(p != q), "h": int(hash(p) == hash(q))}
              for a, p in t.field_dict.items() for b, q in t.field_dict.items()]
        vs = [0, 1, 5, None, "p", new_instruction()] + [m.value for m in t.fields]
        by = [exc_obs(e)["c"] if e else "none" for v in vs for e in [call(t, v)[1]]]
        th = [exc_obs(e)["c"] if e else "none" for m in t.fields for n in t.field_dict for e in [call(getattr, m, n)[1]]]
        a, b = new_instruction(), new_instruction()
        self.emit({"op": "members", "x": x, "r": {"k": "members", "m": ms, "eq": eq, "byvalue": by, "through": th, "new": int(a != b and not a == b)}}, 2)

    def visit(self, x, t):
        if unbound_inside(t):
            return
        H = ["Enum", "Product", "Tuple", "TaggedUnion", "Sum", "leaf"]
        T, ty = self.T, {}

        def note(t):
            ty[T.serial(t)] = t
            return T.serial(t)
        top = {"c": []}
        stack = [top]

        def handler(h):
            def visit_h(self, t):
                n = {"h": h, "s": note(t), "c": []}
                stack[-1]["c"].append(n)
                stack.append(n)
                getattr(adt_util.ADTVisitor, "visit_" + h)(self, t)
                stack.pop()
            return visit_h
        V = type("V", (adt_util.ADTVisitor,), {"visit_" + h: handler(h) for h in H})
        _, e = call(lambda: V().visit(t))
        over = R.sample(H, R.randrange(0, 7))
        prune = [h for h in over if R.random() < .3]
        some = []

        def handler2(h):
            def visit_h(self, t):
                some.append({"h": h, "s": note(t)})
                if h not in prune:
                    getattr(super(V2, self), "visit_" + h)(t)
            return visit_h
        V2 = type("V2", (adt_util.ADTVisitor,), {"visit_" + h: handler2(h) for h in over})
        _, e2 = call(lambda: V2().visit(t))
        e = e or e2
        if e is None and len(top["c"]) != 1:
            e = RuntimeError("visited other than once")
        self.emit({"op": "visit", "x": x, "over": over, "prune": prune, "types": [T.tree(q) for q in ty.values()],
                   "r": exc_obs(e) if e else {"k": "visit", "all": top["c"][0], "some": some}}, 4)

    def bad(self, x, t):
        """definitions that are refused"""
        meta = R.choice([Product, TaggedUnion, Enum])
        f = 0 if meta is Enum else R.choice([int, A, t])
        rn = R.choice(["enumerate", "fields", "field_dict", "is_bound", "is_cached", "value_dict", "from_values"])
        rs = R.choice(["_value_", "_tag_", "_cached_", "_fields_", "_field_table_", "_unbound_base_", "_syntax_"])
        res = ["ReservedNameError"]
        c = [("reserved class field", lambda: type(meta)("P", (meta,), {"ok": f, rn: f}), res),
             ("reserved attribute", lambda: type(meta)("P", (meta,), {"ok": f, rs: R.choice([f, 1])}), res),
             ("reserved field", lambda: meta.from_fields("P", {"ok": f, R.choice([rn, rs]): f}), res),
             ("reserved anonymous", lambda: AnonymousProduct[{"ok": f, R.choice([rn, rs]): f}], res),
             ("reserved tuple attribute", lambda: type(Tuple)("X", (R.choice([Tuple, Sum, Tuple[int, t], Sum[int, A]]),), {rs: 1}), res),
             ("product by index", lambda: Product[R.choice([t, (t, int), {"a": t}, "a", 0])], ["TypeError"]),
             ("union by index", lambda: TaggedUnion[R.choice([t, (t, int), {"a": t}])], ["TypeError"]),
             ("anonymous by index", lambda: AnonymousProduct[R.choice([t, (t, int), [t], ("a", t)])], ["TypeError"]),
             ("enum by index", lambda: Enum[R.choice([t, 0, {"a": 0}])], ["TypeError"]), ("abstract modifier", lambda: hm.AbstractModifier(*R.choice([(t,), (), (t, t)])), ["TypeError"]),
             ("unbound sum", lambda: Sum(1), ["TypeError"]), ("unbound union", lambda: TaggedUnion(a=1), ["TypeError"]),
             ("unbound enum", lambda: Enum(0), ["TypeError"]), ("unbound product", lambda: R.choice([Product, AnonymousProduct])(1), ["TypeError"]),
             ("conflicting", lambda: type(Tuple)("X", (Tuple[int, t], Tuple[t]), {}), ["TypeError"]),
             ("conflicting", lambda: type(Sum)("X", (Sum[bytes, t], Sum[bytes, str, t]), {}), ["TypeError"])]
        u, _ = hm.unwrap_modifier(t)
        k = kind(u)
        if isinstance(u, BoundMeta) and u.is_bound:
            if k in ("product", "tu", "enum"):
                v = 0 if k == "enum" else int
                c += [("bound again", lambda: t.from_fields("Q", {"z": v}), ["TypeError"])] * 6
            if k == "enum":
                c += [("two enums", lambda: type(Enum)("X", (u, type(Enum)("Other", (Enum,), {}) ), {"x": 1}), ["TypeError"])] * 3
            if k in ("sum", "tu"):
                c += [("no alternative", lambda: t[R.choice([str, bytes, Tuple[str], 0, "x"])], ["KeyError"])] * 6
            if k in ("tuple", "anon", "product"):
                n = len(t.fields)
                c += [("no field", lambda: t[R.choice([n, n + 1, -n - 1])], ["IndexError"])] * 4
                c += [("no field", lambda: t[R.choice([int, 1.5, (1, 2), A])], ["TypeError"])] * 4
                if k == "product":
                    c += [("no field", lambda: t["nope"], ["KeyError"])] * 3
        o, fn, want = R.choice(c)
        v, e = call(fn)
        self.emit({"op": "refused", "o": o, "want": want, "r": exc_obs(e) if e else {"k": "made", "v": repr(v)[:60]}})

    def run(self, prog):
        self.W.pick()
        self.W.emit({"op": "reset"})
        for st in prog:
            self.step(st)
        self.regs.clear()
        self.mods.clear()


def spoil(e):
    """corrupted results, which the specification has to reject"""
    r, k = e["r"], e["r"].get("k")
    other = {"k": "exc", "c": "none raised"}
    if k == "type":
        for f, v in (("sz", r["t"]["sz"] + 1), ("n", "z"), ("mods", r["t"]["mods"] + ["z"]), ("k", "z")):
            yield {"k": "type", "t": {**r["t"], f: v}}
        yield other
    elif k == "exc":
        if e["op"] not in ("both", "enumerate"):
            yield other
    elif k == "mod":
        yield {**r, "is": 0}
    elif k == "same":
        pass
    elif k == "isadt":
        yield {**r, "y": 1 - r["y"]}
    elif k == "report":
        yield {**r, "adt": 1 - r["adt"]}
        yield {**r, "sub": [{**s, "y": 1 - s["y"]} for s in r["sub"]]}
    elif k == "modreport":
        for f in ("is", "modifier"):
            yield {**r, f: 1 - r[f]}
        yield {**r, "all": r["all"] + ["z"]}
        yield {**r, "wrapped": 0}
    elif k == "body":
        yield {**r, "bound": 1 - r["bound"]}
        yield {**r, "fields": r["fields"] + ["z"]}
        yield {**r, "same": r["same"] + [0]}
        yield {**r, "again": 1 - r["again"]}
        yield {**r, "other": [1]}
    elif k == "values":
        yield {**r, "v": r["v"][1:]}
        yield {**r, "v": r["v"] + r["v"][:1]}
        yield {**r, "eq": r["eq"] + [[1, 1, 0]]}
    elif k == "members":
        yield {**r, "m": r["m"][1:]}
        yield {**r, "byvalue": ["none"]}
        yield {**r, "through": ["none"]}
        yield {**r, "new": 0}
    elif k == "visit":
        yield {**r, "all": {**r["all"], "h": "z"}}
        yield {**r, "some": r["some"] + [{"h": "z", "s": r["all"]["s"]}]}
    else:
        yield other


def canaries(W):
    """two objects for one definition, one object for two"""
    T = Types()
    W.pick()
    W.emit({"op": "reset"})
    n = {"k": "leaf", "n": "A", "sz": 0, "base": [], "o": [], "u": [], "id": 0, "at": "", "mods": [], "s": 1}
    W.emit({"op": "leaf", "n": "A", "sz": 0, "dst": 1, "r": {"k": "type", "t": n}})
    W.emit({"op": "leaf", "n": "A", "sz": 0, "r": {"k": "type", "t": {**n, "s": 2}}, "canary": True})
    W.emit({"op": "leaf", "n": "B", "sz": 0, "r": {"k": "type", "t": {**n, "n": "B", "s": 1}}, "canary": True})


def go(out):
    W = Writer(out)
    for path in sys.argv[2:]:
        with open(path) as fh:
            for line in fh:
                if line.strip():
                    Run(W).run(json.loads(line)["prog"])
    canaries(W)
    W.close()


if __name__ == "__main__":
    main(go)
