"""Histories of sized types (C10)."""
import gc
import types as pytypes
import weakref
from dlib import *
import hwtypes as ht
from hwtypes import bit_vector as cbv, smt_bit_vector as sbv, z3_bit_vector as zbv
from hwtypes import AbstractBitVector, AbstractFPVector, FPVector, SMTFPVector, RoundingMode as RM

R = random.Random(SEED * 100 + PART)
A = AbstractBitVector
CHAINS = [(A, ht.BitVector, cbv.NumVector), (ht.BitVector, cbv.NumVector, ht.UIntVector), (ht.BitVector, cbv.NumVector, ht.SIntVector),
          (A, sbv.SMTBitVector, sbv.SMTNumVector), (sbv.SMTBitVector, sbv.SMTNumVector, sbv.SMTUIntVector),
          (sbv.SMTBitVector, sbv.SMTNumVector, sbv.SMTSIntVector), (A, zbv.z3BitVector, zbv.z3NumVector),
          (zbv.z3BitVector, zbv.z3NumVector, zbv.z3SIntVector), (zbv.z3BitVector, zbv.z3NumVector, zbv.z3UIntVector)]
FPKEYS = [{0: (3, 2, RM.RNE, True), 1: (3, 2, RM.RNE, False), 4: (3, 2, RM.RTZ, True), 8: (4, 2, RM.RNE, True)},
          {0: (5, 10, RM.RTP, False), 1: (5, 10, RM.RTN, False), 4: (10, 5, RM.RTP, False), 8: (5, 10, RM.RTP, True)},
          {0: (2, 1, RM.RNA, True), 1: (2, 2, RM.RNA, True), 4: (2, 1, RM.RNE, True), 8: (2, 3, RM.RNA, True)},
          {0: (8, 23, RM.RNE, True), 1: (11, 52, RM.RNE, True), 4: (8, 7, RM.RNE, True), 8: (8, 23, RM.RNE, False)}]


class Run:
    def __init__(self, W, k, nroots, fam):
        self.W, self.k, self.fam = W, k, fam
        self.mods = weakref.WeakKeyDictionary()
        if fam == "bv":
            self.roots = R.choice(CHAINS)[:nroots]
            off = R.choice([0, 0, 0, 100, 5000 + 13 * k]) if k % 4 else 0
            self.key = {x: x + off for x in (0, 1, 4, 8)}
        else:
            roots = [AbstractFPVector, FPVector]
            if k % 5 == 4 and nroots == 2:
                roots = [AbstractFPVector, SMTFPVector]
            if nroots == 3:
                roots.append(self.make("Root", (FPVector,)))
            self.roots = roots
            self.key = R.choice(FPKEYS)
        self.held = {(i + 1,): t for i, t in enumerate(self.roots)}
        self.n = len(self.roots)
        self.ids = {}       # model class id -> class number here
        self.seen = []      # (weak reference, serial)
        self.serial = 0
        for t in self.roots:
            self.number(t)

    def make(self, name, bases):
        mod = R.choice(["mine", "yours.sub", "__main__"])
        t = pytypes.new_class(name, bases, {}, lambda ns: ns.update(__module__=mod))
        self.mods[t] = mod
        return t

    def number(self, t):
        for w, s in self.seen:
            if w() is t:
                return s
        self.serial += 1
        self.seen.append((weakref.ref(t), self.serial))
        return self.serial

    def ref(self, t):
        """a model type, its class renumbered"""
        return tuple([self.ids.get(t[0], t[0]) if t[0] > len(self.roots) else t[0]] + list(t[1:]))

    def known(self, t):
        t = tuple(t)
        return (t[0] <= len(self.roots) or t[0] in self.ids) and self.ref(t) in self.held

    def obs(self, t, ref, cls=None):
        o = {"k": "type", "s": self.number(t)}
        fp = self.fam == "fp"
        size = call(lambda: t.binding if fp else t.size)[0]
        keys = {v: k for k, v in self.key.items()}
        o["size"] = -1 if size is None else (keys.get(size, -2))
        o["sized"] = int(bool(t.is_bound if fp else t.is_sized))
        u, e = call(lambda: t.unbound_t if fp else t.unsized_t)
        if e is not None:
            o["unsized"] = 0 if isinstance(e, AttributeError) else -1
        else:
            o["unsized"] = ([r[0] for r, x in self.held.items() if len(r) == 1 and x is u] + [ref[0] if len(ref) == 2 and u.__name__ == self.names(ref[0]) else -2])[0] \
                if len(ref) == 2 or u is not t else ref[0]
        o["name"] = t.__name__
        o["mod"] = str(t.__module__)
        # the module of the class, as it was defined
        c = t if len(ref) == 1 else self.held.get(ref[:1])
        o["wantmod"] = o["mod"] if c is None else self.mods.get(c) or c.__module__
        if not fp:
            if repr(t) != t.__name__:
                o["name"] = "repr " + repr(t)
            n, e = call(lambda: len(t))
            if (n if e is None else None) != size or (e is not None and not isinstance(e, AttributeError)):
                o["size"] = -3
        o["kt"] = ""
        if len(ref) == 2:
            k = self.key[ref[1]]
            o["kt"] = ",".join(map(str, k)) if fp else str(k)
        if fp:
            got = [call(lambda: getattr(t, a)) for a in ("exponent_size", "mantissa_size", "mode", "ieee_compliance")]
            if all(isinstance(e, AttributeError) for _, e in got):
                o["fmt"] = {"k": "unbound"}
            else:
                v = [x for x, _ in got]
                o["fmt"] = {"k": "bound", "e": v[0], "m": v[1], "mode": str(v[2]), "ieee": int(bool(v[3]))} if not any(e for _, e in got) else {"k": "partial"}
                o["bits"] = call(lambda: t.size)[0] or -1
            k = [self.key[o["size"]]] if o["size"] in self.key else []
            k = [self.key[ref[1]]] if len(ref) == 2 else k
            o["want"] = {"k": "bound", "e": k[0][0], "m": k[0][1], "mode": str(k[0][2]), "ieee": int(k[0][3])} if k else {"k": "unbound"}
        o["sub"] = [{"t": list(r), "up": int(issubclass(t, x)), "down": int(issubclass(x, t))} for r, x in self.held.items()]
        return o

    def names(self, c):
        return self.nm[c - 1]

    def emit(self, e, cost=1.0):
        self.W.emit({"fam": self.fam, **e}, cost + len(self.held) / 3)

    def define(self, st):
        bases = [tuple(b) for b in st["bases"]]
        if not all(map(self.known, bases)):
            return
        bases = [self.ref(b) for b in bases]
        name = R.choice(["Mine", "Yours", f"C{self.n}_{self.k}"])
        if self.fam == "fp" and any(self.held[b] is SMTFPVector for b in bases):
            return      # out of scope: SMTFPVector cannot be extended without a format
        if self.fam == "fp" and any(issubclass(self.held[b], SMTFPVector) for b in bases):
            return
        t, e = call(self.make, name, tuple(self.held[b] for b in bases))
        ev = {"op": "define", "o": str(len(bases)), "bases": [list(b) for b in bases], "name": name}
        if e is not None:
            self.emit({**ev, "r": exc_obs(e)})
            self.failed = not isinstance(e, TypeError)
            return
        self.n += 1
        ref = (self.n,)
        self.ids[st["id"]] = self.n
        self.nm.append(name)
        self.held[ref] = t
        self.emit({**ev, "r": self.obs(t, ref)}, 2)

    def index(self, c, k, kk=None):
        ref = self.ref((c, k))
        u = self.held[ref[:1]]
        x = self.key[k] if kk is None else kk
        t, e = call(lambda: u[x])
        ev = {"op": "index", "o": "index" if kk is None else "bool", "c": ref[0], "key": k}
        if e is not None:
            self.emit({**ev, "r": exc_obs(e)})
            self.failed = not isinstance(e, TypeError)
            return
        self.held[ref] = t
        self.emit({**ev, "r": self.obs(t, ref)}, 2)

    def bad(self, t, f):
        ref = self.ref(t)
        T = self.held[ref]
        if self.fam == "bv":
            if f == "bool" and len(ref) == 1 and 1 in self.key.values():
                k = [a for a, b in self.key.items() if b == 1][0]
                if not T.is_sized:
                    return self.index(t[0], k, True)
            x = {"neg": R.choice([-1, -8, -(1 << 40)]), "float": R.choice([8.0, 1.0, 0.5]), "str": R.choice(["8", ""]), "none": None,
                 "tuple": R.choice([(8,), [4], {8}]), "bigfloat": R.choice([1e30, float("inf"), float("nan")]), "bool": slice(0, 4)}[f]
        else:
            e, m, r, i = self.key[R.choice([0, 1, 4, 8])]
            if f == "str" and R.randrange(2):
                f, x = "not a tuple", R.choice([8, None, 3.5])
            else:
                x = {"neg": R.choice([(0, m, r, i), (e, 0, r, i), (-e, m, r, i), (e, -m, r, i)]),
                     "float": R.choice([(float(e), m, r, i), (e, float(m), r, i)]), "str": R.choice([(str(e), m, r, i), (e, m, "RNE", i)]),
                     "none": R.choice([(e, m, r, None), (e, None, r, i), (e, m, None, i)]), "tuple": R.choice([(e, m, r), (e, m, r, i, i), ()]),
                     "bigfloat": (e, m, i, r), "bool": R.choice([(e, m, r, int(i)), (True, m, r, i), (e, True, r, i)])}[f]
        v, exc = call(lambda: T[x])
        self.emit({"op": "bad", "o": f, "t": list(ref), "form": f, "what": repr(x), "r": exc_obs(exc) if exc else {"k": "type", "s": 0}})

    def step(self, st):
        a = st["a"]
        if a == "define":
            self.define(st)
        elif a == "index":
            if self.known((st["c"],)):
                if self.fam == "fp" or st["k"] in self.key:
                    self.index(st["c"], st["k"])
        elif a in ("again", "bad", "drop"):
            t = tuple(st["t"])
            if not self.known(t):
                return
            if a == "again":
                T = self.held[self.ref(t)]
                v, exc = call(lambda: T[self.key[st["k"]]])
                self.emit({"op": "again", "t": list(self.ref(t)), "r": exc_obs(exc) if exc else {"k": "type", "s": 0}})
            elif a == "bad":
                self.bad(t, st["f"])
            else:
                del self.held[self.ref(t)]
                self.emit({"op": "drop", "t": list(self.ref(t))})
        elif a == "gc":
            gc.collect()
            self.emit({"op": "gc", "post": [{"t": list(r), "o": self.obs(x, r)} for r, x in list(self.held.items())]}, len(self.held))

    def run(self, prog):
        self.W.pick()
        n = len(self.roots)
        self.nm = [t.__name__ for t in self.roots]
        self.W.emit({"op": "reset", "fam": self.fam, "cls": [[]] + [[[i]] for i in range(1, n)], "names": self.nm[:]})
        self.failed = False
        for st in prog:
            if self.failed:     # a history ends with an unforeseen failure: it is reported, and may leave a class half defined
                break
            self.step(st)
        self.held.clear()


def canaries(W):
    W.pick()
    W.emit({"op": "reset", "cls": [[], [[1]]], "names": ["A", "B"]})
    o = {"k": "type", "s": 3, "size": 4, "sized": 1, "unsized": 2, "name": "B[4]", "kt": "4", "sub": [{"t": [1], "up": 1, "down": 0}]}
    ix = {"op": "index", "fam": "bv", "c": 2, "key": 4}
    W.emit({**ix, "r": o})
    for c in ({"s": 9}, {"size": 8}, {"sized": 0}, {"unsized": 1}, {"name": "B"}, {"sub": [{"t": [1], "up": 0, "down": 0}]}):
        W.emit({**ix, "canary": True, "r": {**o, **c}})
        if "s" in c:
            W.emit({**ix, "canary": True, "r": o})
            W.emit({"op": "drop", "t": [2, 4]})
            W.emit({**ix, "r": o})
    W.emit({**ix, "c": 1, "key": 4, "canary": True, "r": {**o, "unsized": 1, "name": "A[4]", "sub": []}})
    W.emit({"op": "again", "t": [2, 4], "canary": True, "r": o})
    W.emit({"op": "bad", "fam": "bv", "form": "neg", "t": [2], "canary": True, "r": o})
    W.emit({"op": "define", "bases": [[2, 4], [2, 8]], "name": "X", "canary": True, "r": o})


def info(W):
    """the reserved class attribute"""
    for base in (A, ht.BitVector, sbv.SMTBitVector, AbstractFPVector):
        W.pick()
        W.emit({"op": "reset", "fam": "bv", "cls": [[]], "names": [base.__name__]})
        v, e = call(lambda: pytypes.new_class("X", (base,), {}, lambda ns: ns.update(_info_=(None, 4))))
        W.emit({"op": "again", "fam": "bv", "o": "_info_", "t": [1], "r": exc_obs(e) if e else {"k": "type", "s": 0}})


def families(W):
    """what a family consists of, from every member of it"""
    for fam, T in (("abstract", A), ("c", ht.BitVector), ("s", sbv.SMTBitVector), ("z", zbv.z3BitVector)):
        U = {"abstract": [A], "c": [ht.BitVector, cbv.NumVector, ht.UIntVector, ht.SIntVector], "s": [sbv.SMTBitVector, sbv.SMTNumVector, sbv.SMTUIntVector, sbv.SMTSIntVector],
             "z": [zbv.z3BitVector, zbv.z3NumVector, zbv.z3UIntVector, zbv.z3SIntVector]}[fam]
        B = {"abstract": ht.AbstractBit, "c": ht.Bit, "s": sbv.SMTBit, "z": zbv.z3Bit}[fam]
        at = [B] + U + [u[n] for u in U for n in (1, 8)] + [type("Mine", (u,), {}) for u in U] + [type("Mine", (U[-1][4],), {})]
        if fam != "abstract":
            at += [B(0), U[0][3](1), U[-1][5](2)]
        for x in at:
            f, e = call(x.get_family)
            W.pick()
            r = exc_obs(e) if e else {"k": "family", "of": [getattr(t, "__name__", "none") if t is None or t in (B, *U) else "?" for t in (f.Bit, f.BitVector, f.Unsigned, f.Signed)]}
            W.emit({"op": "family", "o": fam, "fam": fam, "r": r})
    W.emit({"op": "family", "fam": "c", "canary": True, "r": {"k": "family", "of": ["Bit", "BitVector", "SIntVector", "UIntVector"]}})


def go(out):
    W = Writer(out)
    k = 0
    for j, path in enumerate(sys.argv[2:]):
        with open(path) as f:
            ps = [json.loads(x)["prog"] for x in f if x.strip()]
        for p in ps:
            k += 1
            if k % 50 == 0:
                gc.collect()
            fam = "fp" if k % 3 == 0 else "bv"
            Run(W, k, 2 if j == 0 else 3, fam).run(p)
            if j == 0 and THOROUGH:
                Run(W, k, 2, "bv" if fam == "fp" else "fp").run(p)
    if PART == 0:
        canaries(W)
        info(W)
        families(W)
    W.close()


if __name__ == "__main__":
    main(go)
