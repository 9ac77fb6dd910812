"""Histories of values of algebraic data types (C20, C21, C27)."""
import copy
from collections import OrderedDict
from drv_adt import *
from hwtypes import adt_util as au

PROP = os.environ.get("VERIF_FOCUS", "")


def build_pool():
    m = hm.make_modifier("M")
    T1 = Tuple[int, A]
    AB = {"a": int, "b": A}
    P = Product.from_fields("P", AB)
    S1 = Sum[int, K, A]
    E = type(Enum)("E", (Enum,), {"p": 0, "q": 1, "r": 0})
    V = TaggedUnion.from_fields("V", {"u": int, "w": int, "z": T1})
    BV2 = hw.BitVector[2]
    return {"int": int, "K": K, "A": A, "C": C, "Bit": hw.Bit, "BV": BV2, "str": str, "NoneType": type(None),
            "T0": Tuple[()], "T1": T1, "T2": Tuple[int, T1], "T3": Tuple[T1, S1, E], "TB": Tuple[BV2, hw.Bit],
            "X": AnonymousProduct[AB], "P": P, "UP": Product.from_fields("P", AB, cache=False),
            "Q": type(Product)("Q", (Product,), {"self": S1, "cls": P, "x": T1, "e": E}),
            "Y": AnonymousProduct[{"self": int, "super": V, "type": T1}],
            "D": type(P)("Derived", (P,), {}), "MP": m(P), "S1": S1, "S2": Sum[T1, P, E], "DS": type(S1)("Derived", (S1,), {}),
            "V": V, "W": type(TaggedUnion)("W", (TaggedUnion,), {"self": P, "cls": V, "n": int}), "DV": type(V)("Derived", (V,), {}), "E": E}


LEAFNAME[str] = "str"
LEAFNAME[type(None)] = "NoneType"
T = Types()
POOL = build_pool()
SEEN = {}       # types announced, per shard
KIND = {n: kind(t) for n, t in POOL.items()}
LIT = {"int": int, "K": K, "A": lambda n: A(int(n)), "C": lambda n: C(int(n)), "Bit": lambda n: hw.Bit(int(n)), "BV": lambda n: hw.BitVector[2](int(n)),
       "str": str, "NoneType": lambda n: None}


class VRun:
    seen = set()

    def __init__(self, W):
        self.W = W
        self.regs = {}
        self.objs = {}      # id -> (serial, object)

    def ty(self, t):
        s = T.serial(t)
        done = SEEN.setdefault(self.W.cur, {})
        if s not in done:
            done[s] = t
            self.W.emit({"op": "type", "s": s, "t": T.tree(t)}, .2)
        return s

    def d(self, v):
        """a value, as the specification has it"""
        t = type(v)
        o = {"k": "leaf", "t": self.ty(t), "n": "", "s": 0}
        k = kind(t)
        if k == "enum":
            o.update(k="mem", n=v.name)
        elif k != "leaf":
            if id(v) not in self.objs:
                self.objs[id(v)] = (len(self.objs) + 1, v)
            o.update(k="ref", s=self.objs[id(v)][0])
        elif isinstance(v, (A, B)):
            o["n"] = str(v.x)
        elif isinstance(v, (int, hw.Bit, hw.BitVector)):
            o["n"] = str(int(v))
        else:
            o["n"] = str(v)
        return o

    def get(self, d):
        """the value a program names, or None, False"""
        if d["k"] == "leaf":
            return LIT[d["t"]](d["n"]), True
        if d["k"] == "mem":
            return getattr(POOL["E"], d["n"]), True
        return self.regs.get(d["x"]), d["x"] in self.regs

    def content(self, v):
        t = type(v)
        k = kind(t)
        o = {"s": self.d(v)["s"], "t": self.ty(t), "tag": "", "o": []}
        try:
            if k in ("tuple", "anon", "product"):
                vs = [v[i] for i in range(len(t.fields))]
            elif k == "sum":
                m = [f for f in t.fields if v[f].match]
                vs = [v[f].value for f in m]
                o["tag"] = ",".join(str(self.ty(f)) for f in m)
            else:
                m = [n for n in t.field_dict if getattr(v, n).match]
                vs = [getattr(v, n).value for n in m]
                o["tag"] = ",".join(m)
        except Exception as e:
            o["tag"] = f"cannot be read: {e!r}"[:80]
            vs = []
        o["o"] = [self.d(x) for x in vs]
        return o, vs

    def post(self):
        out, todo, done = [], list(self.regs.values()), set()
        while todo:
            v = todo.pop()
            if kind(type(v)) in ("leaf", "enum") or id(v) in done:
                continue
            done.add(id(v))
            o, vs = self.content(v)
            out.append(o)
            todo.extend(vs)
        return out

    def emit(self, e, keep=None):
        if keep is not None:
            self.regs[keep[0]] = keep[1]
        e["post"] = self.post()
        self.W.emit(e, 1 + len(e["post"]) / 6)
        key = (e["op"], e["r"].get("k"))
        # (a sum and a tagged union may compare either way)
        if key not in VRun.seen and (e["op"] != "cmp" or e["x"]["s"] == e["y"]["s"] != 0):
            VRun.seen.add(key)
            for r in spoil_val(e):
                self.W.emit({**e, "r": r, "canary": True})
            if e["post"] and e["post"][0]["o"]:
                p = copy.deepcopy(e["post"])
                p[0]["tag"] += "z"
                self.W.emit({**e, "post": p, "canary": True})

    def res(self, v, e):
        if e is None and kind(type(v)) not in ("leaf", "enum") and id(v) in self.objs:
            return {"k": "an old object"}
        return exc_obs(e) if e else {"k": "val", "v": self.d(v)}

    def step(self, st):
        a = st["a"]
        if a == "make":
            args = [self.get(x) for x in st["args"]]
            kw = [(x["n"], *self.get(x["v"])) for x in st["kw"]]
            if not all(ok for _, ok in args) or not all(ok for _, _, ok in kw):
                return
            t = POOL[st["t"]]
            v, e = call(t, *[x for x, _ in args], **{n: x for n, x, _ in kw})
            ev = {"op": "make", "o": KIND[st["t"]], "t": self.ty(t), "args": [self.d(x) for x, _ in args], "kw": [{"n": n, "v": self.d(x)} for n, x, _ in kw], "r": self.res(v, e)}
            self.emit(ev, None if e else (st["dst"], v))
            return
        if a == "end" or st["x"] not in self.regs:
            return
        x = self.regs[st["x"]]
        t, k = type(x), kind(type(x))
        if a in ("setitem", "setname", "setalt"):
            v, ok = self.get(st["v"])
            if not ok:
                return
            ev = {"op": a, "o": k, "x": self.d(x), "v": self.d(v)}
            if a == "setitem":
                ev["i"] = i = st["i"]
                f = lambda: x.__setitem__(i, v)
            elif a == "setname":
                ev["n"] = n = st["n"]
                if k not in ("anon", "product", "tu") or n not in t.field_dict:
                    return
                f = lambda: setattr(x, n, v)
            else:
                ev["T"] = self.ty(POOL[st["T"]])
                f = lambda: x.__setitem__(POOL[st["T"]], v)
                if k not in ("sum", "tu"):
                    return
            if a == "setitem" and k not in ("tuple", "anon", "product"):
                return
            _, e = call(f)
            self.emit({**ev, "r": exc_obs(e) if e else {"k": "none"}})
        elif a == "cmp":
            if st["y"] in self.regs:
                y = self.regs[st["y"]]
                if R.random() < .1:
                    y = R.choice([0, "s", None, A(0), POOL["E"].p])
                self.cmp(x, y)
        elif a == "view":
            self.view(x, t, k)
        elif a == "rebuild":
            v, e = call(lambda: t.from_values(x.value_dict))
            self.emit({"op": "fromvals", "o": k, "t": self.ty(t), "src": self.d(x), "d": [], "r": self.res(v, e)}, None if e else (st["dst"], v))
            if e is None:
                self.cmp(x, v)
        elif a == "copy":
            vs = self.content(x)[1]
            flat = all(kind(type(v)) in ("leaf", "enum") for v in vs)
            f = R.choice([copy.copy, copy.deepcopy] if flat else [copy.copy])
            v, e = call(f, x)
            self.emit({"op": "copy", "o": k, "x": self.d(x), "r": self.res(v, e)}, None if e else (st["dst"], v))
            if e is None:
                self.cmp(x, v)
        elif a == "rebuildx":
            self.rebuildx(x, t, k)
        elif a == "take":
            v, e = call(lambda: x[st["i"]]) if k in ("tuple", "anon", "product") else (x._value_, None)
            if e is None and kind(type(v)) not in ("leaf", "enum"):
                self.regs[st["dst"]] = v
        elif a == "visit":
            self.visit(x)
        elif a == "infer":
            vs = R.sample(list(self.regs.values()), R.randrange(0, min(3, len(self.regs)) + 1)) + R.sample([0, K(1), A(1), hw.Bit(1), POOL["E"].q], R.randrange(0, 3))
            v, e = call(lambda: Tuple(*vs))
            if e is None:
                self.ty(type(v))
            self.emit({"op": "infer", "args": [self.d(z) for z in vs], "r": self.res(v, e)})
        elif a == "wrong":
            self.wrong(x, t, k)

    def cmp(self, x, y):
        def q(f):
            v, e = call(f)
            return 2 if e else int(bool(v))
        r = {"k": "cmp", "eq": q(lambda: x == y), "re": q(lambda: y == x), "ne": q(lambda: x != y), "rne": q(lambda: y != x),
             "h": q(lambda: hash(x) == hash(y))}
        self.emit({"op": "cmp", "o": kind(type(x)), "x": self.d(x), "y": self.d(y), "r": r})

    def view(self, x, t, k):
        d = self.d

        def q(f):
            v, e = call(f)
            return {"k": "leaf", "t": self.ty(type(e)), "n": str(e)[:60], "s": 0} if e else d(v)

        def exc(f):
            v, e = call(f)
            return exc_obs(e)["c"] if e else "none"
        vd = x.value_dict
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            raw, e = call(lambda: x.value)
        raw = [] if e else list(raw) if type(raw) is tuple else [raw]
        r = {"raw": [d(v) for v in raw], "k": "view", "none": d(None), "frozen": exc(lambda: vd.__setitem__(next(iter(vd), 0), 1)) if hasattr(vd, "__setitem__") else "TypeError"}
        if k in ("tuple", "anon", "product"):
            n = len(t.fields)
            r["items"] = [q(lambda: x[i]) for i in range(n)]
            r["neg"] = [q(lambda: x[i - n]) for i in range(n)]
            r["oor"] = [exc(lambda: x[n]), exc(lambda: x[-n - 1])]
            r["slices"] = [{"a": a, "b": b, "v": [d(v) for v in x[a:b]]} for a, b in ((0, n), (R.randrange(-n - 1, n + 2), R.randrange(-n - 1, n + 2)), (1, n))]
            r["dict"] = [{"n": str(key), "v": d(v)} for key, v in vd.items()]
            if k != "tuple":
                r["names"] = [{"n": f, "v": q(lambda: getattr(x, f))} for f in t.field_dict]
        else:
            fs = list(t.field_dict if k == "tu" else t.fields)
            alts = []
            for f in fs:
                m = getattr(x, f) if k == "tu" else x[f]
                v, e = call(lambda: m.value)
                alts.append({"n": f if k == "tu" else "", "t": 0 if k == "tu" else self.ty(f), "m": int(m.match), "r": exc_obs(e) if e else {"k": "val", "v": d(v)}})
            r["alts"] = alts
            oth = []
            for n in R.sample(list(POOL), 3) + ["int", "T1"]:
                m, e = call(lambda: x[POOL[n]])
                oth.append({"t": self.ty(POOL[n]), "m": exc_obs(e)["c"] if e else "match" if m.match else "no match"})
            r["others"] = oth
            r["dict"] = [{"n": str(key) if k == "tu" else str(self.ty(key)), "v": d(v)} for key, v in vd.items()]
        self.emit({"op": "view", "o": k, "x": d(x), "r": r})

    def rebuildx(self, x, t, k):
        """from_values of a dictionary with something changed"""
        vd = OrderedDict(x.value_dict)
        keys = list(vd)
        other = R.choice([0, K(1), A(0), C(0), "s", None, POOL["E"].p, hw.Bit(1)] + list(self.regs.values()) * 2)
        w = R.randrange(6)
        if w == 0 and keys:
            vd.pop(R.choice(keys))
        elif w == 1:
            vd[len(keys) if k == "tuple" else str if k == "sum" else "zz"] = other
        elif w == 2 and keys:
            vd = OrderedDict(reversed(list(vd.items())))
        elif keys:
            vd[R.choice(keys)] = other
        if any(v is None and k not in ("sum", "tu") for v in vd.values()):
            return
        d = [{"n": str(key) if not isinstance(key, type) else str(self.ty(key)), "v": self.d(v)} for key, v in vd.items()]
        v, e = call(lambda: t.from_values(R.choice([vd, dict(vd)])))
        self.emit({"op": "fromvals", "o": k, "t": self.ty(t), "d": d, "r": self.res(v, e)})

    def visit(self, x):
        H = ["Enum", "Product", "Tuple", "TaggedUnion", "Sum", "leaf"]
        got = []

        def handler(h):
            def visit_h(s, v):
                got.append({"h": h, "v": self.d(v)})
                getattr(au.ADTInstVisitor, "visit_" + h)(s, v)
            return visit_h
        V = type("V", (au.ADTInstVisitor,), {"visit_" + h: handler(h) for h in H})
        _, e = call(lambda: V().visit(x))
        self.emit({"op": "visit", "o": kind(type(x)), "x": self.d(x), "r": exc_obs(e) if e else {"k": "visit", "v": got}})

    def wrong(self, x, t, k):
        """operations there are none of"""
        te, ae = ["TypeError"], ["AttributeError"]
        v = R.choice([0, A(0), "s", x])
        c = [("delete item", lambda: x.__delitem__(0), te + ae), ("read", lambda: x[R.choice([str, bytes, "zz", 1.5])], te)]
        if k in ("tuple", "anon", "product"):
            c += [("assign slice", lambda: x.__setitem__(slice(R.choice([0, 1, None]), R.choice([1, 2, None])), R.choice([v, (v,), [v, v], x])), te),
                  ("assign index", lambda: x.__setitem__(R.choice(["a", 1.0, None, int, (0,)]), v), te + ["KeyError", "IndexError"]),
                  ("constructor", lambda: t(*([v] * (len(t.fields) + R.choice([1, 2])))), te + ["ValueError"])]
        if k in ("anon", "product"):
            f = R.choice(list(t.field_dict))
            c += [("delete", lambda: delattr(x, f), ae), ("read name", lambda: x.no_such_field, ae), ("constructor", lambda: t(no_such_field=v), te)]
        if k == "tu":
            f = R.choice(list(t.field_dict))
            c += [("set item", lambda: x.__setitem__(R.choice([int, t.field_dict[f], f, 0]), v), te), ("delete", lambda: delattr(x, f), ae),
                  ("read name", lambda: x.no_such_field, ae), ("assign match", lambda: setattr(getattr(x, f), "match", True), ae)]
        if k == "sum":
            c += [("set item", lambda: x.__setitem__(R.choice([str, bytes, "a", 0, object]), v), te)] * 2
            c += [("assign match", lambda: setattr(x[R.choice(list(t.fields))], "value", 1), ae)]
        o, fn, want = R.choice(c)
        _, e = call(fn)
        self.emit({"op": "refused", "o": o, "x": self.d(x), "want": want, "r": exc_obs(e) if e else {"k": "done"}})

    def run(self, prog):
        self.W.pick()
        if self.W.cur not in SEEN:
            for n, t in POOL.items():
                self.W.emit({"op": "pool", "n": n, "s": self.ty(t), "r": {"k": "pool"}})
        self.W.emit({"op": "reset"})
        for st in prog:
            self.step(st)


def spoil_val(e):
    r, k = e["r"], e["r"].get("k")
    if k == "val":
        yield {"k": "exc", "c": "TypeError"}
        yield {"k": "val", "v": {**r["v"], "t": -1}}
    elif k in ("none", "exc"):
        yield {"k": "exc", "c": "none raised"}
    elif k == "cmp":
        yield {**r, "eq": 1 - r["eq"]}
        yield {**r, "rne": 1 - r["rne"]}
    elif k == "view":
        yield {**r, "raw": r["raw"] + [r["none"]]}
        yield {**r, "dict": r["dict"] + [{"n": "z", "v": r["none"]}]}
        if "alts" in r:
            yield {**r, "alts": [{**a, "m": 1 - a["m"]} for a in r["alts"]]}
        else:
            yield {**r, "items": r["items"] + [r["none"]]}
    elif k == "visit":
        yield {**r, "v": r["v"][1:]}


def go_val(out):
    W = Writer(out)
    for path in sys.argv[2:]:
        with open(path) as fh:
            for line in fh:
                if line.strip():
                    VRun(W).run(json.loads(line)["prog"])
    W.close()


if __name__ == "__main__":
    main(go_val)
