-------------------------------- MODULE ADT --------------------------------
(***************************************************************************)
(* Algebraic data types as values: what a type is, when two are the same,   *)
(* which is a subtype of which, and what rebinding, stripping and pushing   *)
(* modifiers, enumerating and visiting yield.                               *)
(*                                                                          *)
(* A type is a record                                                       *)
(*   k     "leaf", "tuple", "anon", "product", "sum", "tu", "enum", "U" (an *)
(*         unbound constructor) or "derived" (a class below a bound type)   *)
(*   n, sz its name (leaves: the class or vector family, and the size)      *)
(*   base  <<the unbound constructor>> or <<the class derived from>>        *)
(*   o, u  its fields [n, t]: ordered ones, unordered ones                  *)
(*   mods  the modifiers applied, the first applied first                   *)
(*   at    an attribute that is no field                                    *)
(*   id    0, or for classes equal to no other (uncached, derived, own      *)
(*         unbound constructors) what tells it from all others              *)
(* so that two types are the same iff the records are equal.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Mk(k, n, sz, base, o, u, id) == [k |-> k, n |-> n, sz |-> sz, base |-> base, o |-> o, u |-> u, mods |-> <<>>, at |-> "", id |-> id]
Leaf(n, sz) == Mk("leaf", n, sz, <<>>, <<>>, {}, 0)
Fld(n, t) == [n |-> n, t |-> t]
AnyId == -1       \* a new class, whichever
Builtin == [Tuple |-> Mk("U", "Tuple", 0, <<>>, <<>>, {}, 0), Sum |-> Mk("U", "Sum", 0, <<>>, <<>>, {}, 0), Enum |-> Mk("U", "Enum", 0, <<>>, <<>>, {}, 0),
            AnonymousProduct |-> Mk("U", "AnonymousProduct", 0, <<>>, <<>>, {}, 0), Product |-> Mk("U", "Product", 0, <<>>, <<>>, {}, 0),
            TaggedUnion |-> Mk("U", "TaggedUnion", 0, <<>>, <<>>, {}, 0)]
TupleU == Builtin.Tuple
SumU == Builtin.Sum
AnonU == Builtin.AnonymousProduct
\* the kind of types an unbound constructor makes
RECURSIVE Makes(_)
Makes(U) == IF U.base # <<>> THEN Makes(U.base[1])
            ELSE CASE U.n = "Tuple" -> "tuple" [] U.n = "Sum" -> "sum" [] U.n = "Enum" -> "enum" [] U.n = "AnonymousProduct" -> "anon"
                   [] U.n = "Product" -> "product" [] U.n = "TaggedUnion" -> "tu"
Ordered == {"tuple", "anon", "product"}
Unordered == {"sum", "tu", "enum"}
Attr == {"product", "tu", "enum"}
Bound == Ordered \cup Unordered
IsADT(t) == t.k \in Bound \cup {"U", "derived"}
Modified(t) == t.mods # <<>>
Unmod(t) == [t EXCEPT !.mods = <<>>]
Wrap(t, ms) == [t EXCEPT !.mods = t.mods \o ms]
\* the bound type whose fields t has
RECURSIVE Root(_)
Root(t) == IF t.k = "derived" THEN Root(t.base[1]) ELSE t
Fields(t) == LET r == Root(t) IN IF r.k \in Ordered THEN Range(r.o) ELSE r.u
FieldTypes(t) == {f.t : f \in Fields(t)}
\* constructors (seq of fields given in order; unordered ones forget the order)
Bind(U, fs, name, id) ==
    LET k == Makes(U) IN
    IF k \in Ordered THEN Mk(k, name, 0, <<U>>, fs, {}, id) ELSE Mk(k, name, 0, <<U>>, <<>>, Range(fs), id)
Tup(ts) == Bind(TupleU, [i \in 1..Len(ts) |-> Fld("", ts[i])], "", 0)
\* the definition of t again, as it was or with one thing different: e says which
\* [var, p: a position, fn: a field's name, name, at], T2 another type, U2 another constructor
IndexOf(s, f(_)) == IF \E i \in 1..Len(s) : f(s[i]) THEN CHOOSE i \in 1..Len(s) : f(s[i]) ELSE 0
Redo(t, e, T2, U2, id) ==
    LET fs == IF t.k \in Ordered THEN t.o ELSE SetToSeq(t.u)
        n == Len(fs)
        q == IF t.k \in Ordered THEN (IF e.p <= n THEN e.p ELSE 0) ELSE IF t.k = "sum" THEN 0 ELSE IndexOf(fs, LAMBDA f : f.n = e.fn)
        with(T) == [fs EXCEPT ![q] = Fld(fs[q].n, T)]
        gs == CASE e.var = "reverse" -> Reverse(fs)
                [] e.var = "type" -> (IF t.k = "enum" THEN (IF q = 0 THEN fs ELSE with(Leaf("7", 0)))
                                      ELSE IF t.k = "sum" THEN Append(fs, Fld("", T2)) ELSE IF q = 0 THEN fs ELSE with(T2))
                [] e.var = "field" -> (IF q = 0 \/ t.k = "tuple" \/ (\E i \in 1..n : fs[i].n = "zz") THEN fs ELSE [fs EXCEPT ![q] = Fld("zz", fs[q].t)])
                [] e.var = "drop" -> (IF q = 0 \/ n < 2 THEN fs ELSE [i \in 1..(n - 1) |-> fs[IF i < q THEN i ELSE i + 1]])
                [] OTHER -> fs
        cached == (t.id = 0) # (e.var = "cache" /\ t.k \in Attr)
        r == Bind(IF e.var = "base" THEN U2 ELSE t.base[1], gs, IF t.k \in Attr /\ e.var = "name" THEN e.name ELSE t.n, IF cached THEN 0 ELSE id)
    IN  [r EXCEPT !.at = IF t.k \notin Attr THEN "" ELSE IF e.var = "at" THEN e.at ELSE t.at]
\* from recorded JSON
RECURSIVE Canon(_)
Canon(j) == LET f(x) == Fld(x.n, Canon(x.t)) IN
            [k |-> j.k, n |-> j.n, sz |-> j.sz, base |-> [i \in 1..Len(j.base) |-> Canon(j.base[i])], o |-> [i \in 1..Len(j.o) |-> f(j.o[i])],
             u |-> {f(j.u[i]) : i \in 1..Len(j.u)}, mods |-> j.mods, at |-> j.at, id |-> j.id]
RECURSIVE Size(_)
Size(t) == LET fs == IF t.k \in Ordered THEN t.o ELSE SetToSeq(t.u) IN
           1 + FoldLeft(LAMBDA s, f : s + Size(f.t), 0, fs)
              + (IF t.base # <<>> /\ t.base[1].k # "U" THEN Size(t.base[1]) ELSE 0)
RECURSIVE Nodes(_)
Nodes(t) == {t} \cup UNION {Nodes(x) : x \in FieldTypes(t)} \cup (IF t.k = "derived" THEN Nodes([t.base[1] EXCEPT !.mods = <<>>]) ELSE {})

(* --- class bodies ------------------------------------------------------- *)
\* which entries of a class body are fields: by name (its characters) and kind of value
Under == "_"
IsDunder(cs) == LET n == Len(cs) IN n > 4 /\ cs[1] = Under /\ cs[2] = Under /\ cs[n] = Under /\ cs[n - 1] = Under /\ cs[3] # Under /\ cs[n - 2] # Under
IsSunder(cs) == LET n == Len(cs) IN n > 2 /\ cs[1] = Under /\ cs[n] = Under /\ cs[2] # Under /\ cs[n - 1] # Under
IsField(cs, kind, v) == ~IsDunder(cs) /\ ~IsSunder(cs) /\ v \in (IF kind = "enum" THEN {"int", "bool", "auto"} ELSE {"type"})

(* --- subtyping -------------------------------------------------------- *)
FamUp == [A |-> "", B |-> "", C |-> "A", D |-> "B", int |-> "", K |-> "int",
          AbstractBit |-> "", Bit |-> "AbstractBit", SMTBit |-> "AbstractBit", z3Bit |-> "AbstractBit",
          AbstractBitVector |-> "", BitVector |-> "AbstractBitVector", NumVector |-> "BitVector", UIntVector |-> "NumVector", SIntVector |-> "NumVector",
          SMTBitVector |-> "AbstractBitVector", SMTNumVector |-> "SMTBitVector", SMTUIntVector |-> "SMTNumVector", SMTSIntVector |-> "SMTNumVector",
          z3BitVector |-> "AbstractBitVector", z3NumVector |-> "z3BitVector", z3UIntVector |-> "z3NumVector", z3SIntVector |-> "z3NumVector"]
RECURSIVE FamSub(_, _)
FamSub(a, b) == a = b \/ (a \in DOMAIN FamUp /\ FamUp[a] # "" /\ FamSub(FamUp[a], b))
IsVec(t) == t.k = "leaf" /\ FamSub(t.n, "AbstractBitVector")
IsBit(t) == t.k = "leaf" /\ FamSub(t.n, "AbstractBit")
UUp(U) == IF U.base # <<>> THEN <<U.base[1]>>
          ELSE CASE U.n = "Product" -> <<AnonU>> [] U.n = "AnonymousProduct" -> <<TupleU>> [] U.n = "TaggedUnion" -> <<SumU>> [] OTHER -> <<>>
RECURSIVE USub(_, _)
USub(a, b) == a = b \/ (UUp(a) # <<>> /\ USub(UUp(a)[1], b))
Types(t) == IF t.k \in Ordered THEN [i \in 1..Len(t.o) |-> t.o[i].t] ELSE <<>>
RECURSIVE Sub(_, _)
Sub(t, s) ==
    \/ t = s
    \/ IF Modified(t) THEN LET p == [t EXCEPT !.mods = Front(t.mods)]
                           IN  Sub(p, s) \/ (Modified(s) /\ Last(s.mods) = Last(t.mods) /\ Sub(p, [s EXCEPT !.mods = Front(s.mods)]))
       ELSE IF Modified(s) THEN FALSE
       ELSE IF t.k = "leaf" THEN s.k = "leaf" /\ FamSub(t.n, s.n) /\ (s.sz = 0 \/ s.sz = t.sz)
       ELSE IF t.k = "derived" THEN Sub(t.base[1], s)
       ELSE IF t.k = "U" THEN s.k = "U" /\ USub(t, s)
       ELSE IF s.k = "U" THEN USub(t.base[1], s)
       ELSE CASE s.k = "tuple" -> t.k \in Ordered /\ Types(t) = Types(s) /\ (IF t.k = "tuple" THEN USub(t.base[1], s.base[1]) ELSE s.base[1] = TupleU)
              [] s.k = "anon" -> t.k \in {"anon", "product"} /\ t.o = s.o /\ (IF t.k = "anon" THEN USub(t.base[1], s.base[1]) ELSE s.base[1] = AnonU)
              [] s.k = "sum" -> t.k \in {"sum", "tu"} /\ FieldTypes(t) = FieldTypes(s) /\ (IF t.k = "sum" THEN USub(t.base[1], s.base[1]) ELSE s.base[1] = SumU)
              [] OTHER -> FALSE

(* --- the same shape with other fields ----------------------------------- *)
\* id: of the new class where t is not cached
MapFields(t, f(_), id) ==
    LET g(x) == Fld(IF t.k = "sum" THEN "" ELSE x.n, f(x.t))
        n == IF t.k \in Ordered THEN [t EXCEPT !.o = [i \in 1..Len(t.o) |-> g(t.o[i])]] ELSE [t EXCEPT !.u = {g(x) : x \in t.u}]
    IN  IF n.o = t.o /\ n.u = t.u THEN t ELSE [n EXCEPT !.id = IF t.id = 0 THEN 0 ELSE id, !.at = ""]
\* nodes that can be given other fields: those not derived, and, but for the functions that keep modifiers, not modified
Rebindable(t) == t.k \in Bound \ {"enum"} /\ ~Modified(t)
RECURSIVE Rebind(_, _, _, _, _)
Rebind(t, A, B, sub, rec) ==
    IF ~Rebindable(t) THEN t
    ELSE MapFields(t, LAMBDA x : IF x = A \/ (sub /\ Sub(x, A)) THEN B ELSE IF rec THEN Rebind(x, A, B, sub, TRUE) ELSE x, AnyId)
RECURSIVE RebindBV(_, _, _, _)
RebindBV(t, F0, F1, keep) ==
    IF keep /\ Modified(t) THEN Wrap(RebindBV(Unmod(t), F0, F1, TRUE), t.mods)
    ELSE IF IsVec(t) /\ FamSub(t.n, F0) THEN Leaf(F1, t.sz)
    ELSE IF ~Rebindable(t) THEN t
    ELSE MapFields(t, LAMBDA x : RebindBV(x, F0, F1, keep), AnyId)
RECURSIVE RebindKeep(_, _, _)
RebindKeep(t, A, B) ==
    IF Modified(t) THEN Wrap(RebindKeep(Unmod(t), A, B), t.mods)
    ELSE IF Sub(t, A) THEN B
    ELSE IF ~Rebindable(t) THEN t
    ELSE MapFields(t, LAMBDA x : RebindKeep(x, A, B), AnyId)
FamVec == [BitVector |-> "BitVector", SMTBitVector |-> "SMTBitVector", z3BitVector |-> "z3BitVector"]
FamBit == [BitVector |-> "Bit", SMTBitVector |-> "SMTBit", z3BitVector |-> "z3Bit"]
RECURSIVE RebindType(_, _)
RebindType(t, fam) ==
    IF Modified(t) THEN Wrap(RebindType(Unmod(t), fam), t.mods)
    ELSE IF IsVec(t) THEN Leaf(FamVec[fam], t.sz)
    ELSE IF IsBit(t) THEN Leaf(FamBit[fam], 0)
    ELSE IF ~Rebindable(t) THEN t
    ELSE MapFields(t, LAMBDA x : RebindType(x, fam), AnyId)
\* no node whose rebinding is not defined
Plain(t) == \A x \in Nodes(t) : x.k # "derived" /\ (IsADT(x) => ~Modified(x))
PlainKeep(t) == \A x \in Nodes(t) : x.k # "derived"
PlainLeaf(t) == \A x \in Nodes(t) \ {t} : ~Modified(x)

(* --- modifiers ----------------------------------------------------------- *)
AnyOrCached == -2
RECURSIVE Strip(_)
Strip(t) == LET p == Unmod(t) IN IF ~Rebindable(p) THEN p ELSE MapFields(p, Strip, AnyOrCached)
RECURSIVE Push(_, _)
Push(t, ms) ==
    LET p == Unmod(t)
        m == t.mods \o ms
    IN  IF ~Rebindable(p) THEN Wrap(p, m) ELSE MapFields(p, LAMBDA x : Push(x, m), AnyOrCached)
\* the same modifier twice above a leaf cannot be pushed
RECURSIVE CanPush(_, _)
CanPush(t, ms) ==
    LET m == t.mods \o ms IN
    IF ~Rebindable(Unmod(t)) THEN IsInjective(m) ELSE \A x \in FieldTypes(t) : CanPush(x, m)

NoMods(t) == \A x \in Nodes(t) : ~Modified(x)
NoIds(t) == \A x \in Nodes(t) : x.id = 0 /\ x.at = ""

(* --- values ----------------------------------------------------------------- *)
\* [ty, tag, o]: a leaf's number, a member's or an alternative's name; the fields' values
Val(t, tag, o) == [ty |-> t, tag |-> tag, o |-> o]
RECURSIVE Values(_)
SeqProduct(Ss) == FoldLeft(LAMBDA acc, S : {Append(p, v) : p \in acc, v \in S}, {<<>>}, Ss)
Values(t) ==
    LET r == Root([t EXCEPT !.mods = <<>>]) IN
    CASE r.k = "leaf" -> {Val(t, "0", <<>>)}
      [] r.k = "enum" -> {Val(r, f.n, <<>>) : f \in r.u}
      [] r.k \in Ordered -> {Val(t, "", p) : p \in SeqProduct([i \in 1..Len(r.o) |-> Values(r.o[i].t)])}
      [] r.k = "sum" -> UNION {{Val(t, "", <<v>>) : v \in Values(f.t)} : f \in r.u}
      [] r.k = "tu" -> UNION {{Val(t, f.n, <<v>>) : v \in Values(f.t)} : f \in r.u}
RECURSIVE Count(_)
Count(t) == LET r == Root([t EXCEPT !.mods = <<>>]) IN
            CASE r.k = "leaf" -> 1 [] r.k = "enum" -> Cardinality(r.u)
              [] r.k \in Ordered -> FoldLeft(LAMBDA s, f : IF s > 1000 THEN s ELSE s * Count(f.t), 1, r.o)
              [] OTHER -> FoldLeft(LAMBDA s, f : s + Count(f.t), 0, SetToSeq(r.u))
\* a recorded type matches: where a new class is due any identity does, as long as it is new
RECURSIVE Match(_, _)
Match(x, y) ==
    /\ x.k = y.k /\ x.n = y.n /\ x.sz = y.sz /\ x.base = y.base /\ x.mods = y.mods /\ x.at = y.at
    /\ (x.id = y.id \/ (x.id = AnyId /\ y.id > 0) \/ (x.id = AnyOrCached /\ y.id >= 0))
    /\ Len(x.o) = Len(y.o) /\ \A i \in 1..Len(x.o) : x.o[i].n = y.o[i].n /\ Match(x.o[i].t, y.o[i].t)
    /\ Cardinality(x.u) = Cardinality(y.u)
    /\ \A f \in x.u : \E g \in y.u : f.n = g.n /\ Match(f.t, g.t)
    /\ \A g \in y.u : \E f \in x.u : f.n = g.n /\ Match(f.t, g.t)
=============================================================================
