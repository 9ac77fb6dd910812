"""Histories of frozen dictionaries and typed properties (C28)."""
import copy
from collections import OrderedDict, UserDict
from collections.abc import Mapping
from types import MappingProxyType
from dlib import *
from hwtypes.util import FrozenDict, OrderedFrozenDict, TypedProperty

R = random.Random(SEED * 31 + PART)


class K(int):
    pass


class FD2(FrozenDict):
    pass


KIND = {"dict": dict, "odict": OrderedDict, "user": UserDict, "fd": FrozenDict, "ofd": OrderedFrozenDict}
TYPES = {"int": int, "str": str, "K": K, "object": object}


def val(v):
    if v["k"] == "int":
        return v["n"]
    return KIND[v["k"]]([(x["n"], val(x["v"])) for x in v["o"]])


def obs(v):
    if isinstance(v, FrozenDict):
        return {"k": "ofd" if isinstance(v, OrderedFrozenDict) else "fd", "n": 0, "o": items(v)}
    if isinstance(v, int):
        return {"k": "int", "n": v, "o": []}
    return {"k": "other " + repr(v)[:40], "n": 0, "o": []}


def items(d):
    return [{"n": k, "v": obs(v)} for k, v in d.items()]


class Run:
    seen = set()

    def __init__(self, W):
        self.W = W
        self.regs = {}
        self.props = {}
        self.classes = {}

    def emit(self, e, post=True):
        if post:
            e["post"] = [{"i": i, "o": items(d), "h": str(hash(d)) if isinstance(d, FrozenDict) else ""} for i, d in self.regs.items()]
        self.W.emit(e, 1 + len(e.get("post", ())) / 4)
        key = (e["op"], e["r"].get("k"), e.get("how"))
        if key not in Run.seen:
            Run.seen.add(key)
            r = e["r"]
            bad = []
            if r["k"] == "cmp":
                bad = [{**r, "eq": 1 - r["eq"]}, {**r, "ne": 1 - r["ne"]}]
            elif r["k"] == "look":
                bad = [{**r, "len": r["len"] + 1}, {**r, "items": r["items"] + [0]}]
            elif e["op"] != "class":
                bad = [{**r, "k": "corrupted"}]
            for b in bad:
                self.W.emit({**e, "r": b, "canary": True})
            if e.get("post"):
                p = copy.deepcopy(e["post"])
                p[-1]["o"].append({"n": "z", "v": obs(0)})
                self.W.emit({**e, "post": p, "canary": True})

    def made(self, st, f, **kw):
        v, e = call(f)
        if e is None:
            self.regs[st["dst"]] = v
            if isinstance(v, FrozenDict):
                kw["h"] = str(hash(v))
        self.emit({**kw, "dst": st["dst"], "r": exc_obs(e) if e else {"k": "made"}})

    def step(self, st):
        a = st["a"]
        if a == "make":
            xs = [(x["n"], val(x["v"])) for x in st["xs"]]
            kw = {x["n"]: val(x["v"]) for x in st["kw"]}
            C = KIND[st["k"]]
            how = st["how"]
            arg = [] if how == "kwargs" else [R.choice([xs, tuple(xs), iter(xs)])] if how == "pairs" else [R.choice([dict, OrderedDict, FrozenDict, OrderedFrozenDict, UserDict])(xs)]
            # from a map keys come in its order
            self.made(st, lambda: C(*arg, **kw), op="make", k=st["k"], xs=st["xs"], kw=st["kw"])
        elif a == "from":
            C = KIND[st["k"]]
            self.made(st, lambda: C(self.regs[st["x"]]), op="from", k=st["k"], x=st["x"])
        elif a == "proxy":
            self.made(st, lambda: MappingProxyType(self.regs[st["x"]]), op="proxy", x=st["x"])
        elif a == "mut":
            d = self.regs[st["x"]]
            if st["how"] == "del":
                _, e = call(R.choice([d.__delitem__, d.pop]), st["n"])
            elif st["how"] == "move":
                _, e = call(d.move_to_end, st["n"])
            else:
                _, e = call(d.__setitem__, st["n"], val(st["v"]))
            # a caller's own dictionary: what it holds is the caller's doing alone
            self.emit({"op": "mut", "how": st["how"], "x": st["x"], "n": st["n"], "v": st["v"], "r": exc_obs(e) if e else {"k": "none"}})
        elif a == "cmp":
            x, y = self.regs[st["x"]], self.regs[st["y"]]

            def q(f):
                v, e = call(f)
                return 2 if e else int(bool(v))
            r = {"k": "cmp", "eq": q(lambda: x == y), "re": q(lambda: y == x), "ne": q(lambda: x != y), "rne": q(lambda: y != x), "h": 0}
            if isinstance(x, FrozenDict) and isinstance(y, FrozenDict):
                r["h"] = int(hash(x) == hash(y))
            self.emit({"op": "cmp", "x": st["x"], "y": st["y"], "r": r})
            if R.random() < .05:
                z = R.choice([None, 0, "a", [], tuple(x.items()), list(x), object()])
                if x == z or z == x or not (x != z):
                    self.emit({"op": "refused", "o": "equal to " + repr(z)[:30], "want": ["x"], "r": {"k": "equal"}})
        elif a == "look":
            x = self.regs[st["x"]]
            at = []
            for n in ("a", "b", "c", "d", "zz"):
                v, e = call(lambda: x[n])
                at.append({"n": n, "in": int(n in x), "r": exc_obs(e) if e else {"k": "val", "v": obs(v)}, "get": obs(x.get(n, -1)), "def": obs(-1)})
            r = {"k": "look", "keys": R.choice([list(x), list(x.keys())]), "values": [obs(v) for v in x.values()], "items": items(x), "len": len(x), "bool": int(bool(x)),
                 "mapping": int(isinstance(x, Mapping)), "at": at}
            self.emit({"op": "look", "x": st["x"], "r": r})
        elif a == "wrong":
            x = self.regs[st["x"]]
            if not isinstance(x, FrozenDict):
                return
            te, ae = ["TypeError"], ["AttributeError"]
            c = [("set", lambda: x.__class__.__setitem__(x, "a", 1), ae), ("set", lambda: exec("x['a'] = 1", {"x": x}), te), ("del", lambda: exec("del x['a']", {"x": x}), te),
                 ("update", lambda: x.update({"a": 5}), ae), ("pop", lambda: x.pop("a"), ae), ("popitem", lambda: x.popitem(), ae), ("clear", lambda: x.clear(), ae),
                 ("setdefault", lambda: x.setdefault("q", 5), ae), ("move", lambda: x.move_to_end("a"), ae), ("or", lambda: exec("x |= {'a': 5}", {"x": x}), te),
                 ("attribute", lambda: setattr(x, "a", 1), ae), ("unhashable", lambda: type(x)({"a": []}), te), ("unhashable", lambda: type(x)(a={}), te),
                 ("arguments", lambda: type(x)({}, {}), te), ("arguments", lambda: type(x)(5), te)]
            o, f, want = R.choice(c)
            _, e = call(f)
            self.emit({"op": "refused", "o": o, "want": want, "r": exc_obs(e) if e else {"k": "done"}})
        elif a == "prop":
            self.prop(st)
        elif a == "with":
            p = self.props[st["x"]]
            name = {"g": "getter", "s": "setter", "d": "deleter"}[st["acc"]]
            v, e = call(lambda: getattr(p, name)(self.acc(st["acc"], st["id"])))
            ok = e is None and isinstance(v, TypedProperty) and v is not p
            self.props[st["dst"]] = v
            if ok:
                self.outside(st["dst"], None)
            self.emit({"op": "with", "x": st["x"], "acc": st["acc"], "id": st["id"], "dst": st["dst"], "r": {"k": "made"} if ok else exc_obs(e) if e else {"k": "not a new one"}}, False)
        elif a == "class":
            other = {"x": "y", "y": "x"}[st["n"]]
            names = [{"n": st["n"], "p": st["p"]}] + ([{"n": other, "p": st["q"]}] if st["q"] else [])
            b = st["base"] if st["base"] in self.classes else 0     # a class never made has nothing to inherit
            base = (self.classes[b],) if b else ()
            self.classes[st["c"]] = type("Cls", base, {x["n"]: self.props[x["p"]] for x in names})
            self.emit({"op": "class", "c": st["c"], "base": b, "names": names, "r": {"k": "none"}}, False)
        elif a == "use":
            if st["c"] not in self.classes:
                return
            C, n = self.classes[st["c"]], st["n"]
            o = C()
            o_ = self.log = []
            how = st["how"]
            if how == "cls":
                v, e = call(lambda: getattr(C, n))
                r = {"k": "type", "v": {t: k for k, t in TYPES.items()}.get(v, "other")} if e is None else None
            elif how == "get":
                v, e = call(lambda: getattr(o, n))
                r = {"k": "got", "v": v}
            elif how == "set":
                x = {"int": 7, "str": "s", "K": K(3), "none": None}[st["v"]]
                v, e = call(lambda: setattr(o, n, x))
                r = {"k": "set", "v": o_[0][1]} if len(o_) == 1 and o_[0][0] == "s" and o_[0][2] is x and o_[0][3] is o else {"k": "not set", "v": ""}
            else:
                v, e = call(lambda: delattr(o, n))
                r = {"k": "deleted", "v": o_[0][1]} if len(o_) == 1 and o_[0][0] == "d" and o_[0][3] is o else {"k": "not deleted", "v": ""}
            if e is not None:
                r = {"k": "exc", "v": exc_obs(e)["c"]}
                if o_:
                    r = {"k": "accessor called", "v": ""}
            self.emit({"op": "use", "how": how, "c": st["c"], "n": n, "v": st["v"], "r": r}, False)

    def outside(self, dst, T):
        """before a class declares it, a property reads as itself: so that a
        class body can add accessors to it"""
        p = self.props[dst]
        v, e = call(lambda: p.__get__(None, object))
        self.emit({"op": "outside", "r": {"k": "exc", "v": exc_obs(e)["c"]} if e else {"k": "itself" if v is p else "other"}}, False)

    def acc(self, a, i):
        if a == "g":
            return lambda o: str(i)
        if a == "s":
            return lambda o, v: self.log.append(("s", str(i), v, o))
        return lambda o: self.log.append(("d", str(i), None, o))

    def prop(self, st):
        f = {a: self.acc(a, st[a]) if st[a] else None for a in "gsd"}

        def make():
            p = TypedProperty(TYPES[st["T"]])
            w = R.random()
            if w < .4:
                return p(f["g"], f["s"], f["d"])
            if w < .6:
                return p(fset=f["s"], fdel=f["d"], fget=f["g"])
            if f["g"] or w < .7:
                p = p(f["g"])
            for a, n in R.sample([("s", "setter"), ("d", "deleter")], 2):
                if f[a]:
                    p = getattr(p, n)(f[a])
            return p
        v, e = call(make)
        self.props[st["dst"]] = v
        if e is None:
            self.outside(st["dst"], st["T"])
        self.emit({"op": "prop", "T": st["T"], "g": st["g"], "s": st["s"], "d": st["d"], "dst": st["dst"],
                   "r": {"k": "made"} if isinstance(v, TypedProperty) else {"k": "failed"}}, False)

    def run(self, prog):
        self.W.pick()
        self.W.emit({"op": "reset"})
        for st in prog:
            self.step(st)


def go(out):
    W = Writer(out)
    for path in sys.argv[2:]:
        with open(path) as fh:
            for line in fh:
                if line.strip():
                    Run(W).run(json.loads(line)["prog"])
    W.close()


if __name__ == "__main__":
    main(go)
