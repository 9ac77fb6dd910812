------------------------------ MODULE ValHeap ------------------------------
(***************************************************************************)
(* Values of algebraic data types: mutable objects referring to each other  *)
(* and to constants.  A value is [k, t, n, s]: a constant ("leaf", a member *)
(* "mem" of an enumeration) of type t, told by n, or a reference ("ref") to *)
(* the object s of type t.  An object is [t, tag, o]: its type, the active  *)
(* alternative and the values of its fields.  Types are keys of ty, which   *)
(* gives them as types of ADT.                                              *)
(***************************************************************************)
EXTENDS ADT
Const(t, n) == [k |-> "leaf", t |-> t, n |-> n, s |-> 0]
Mem(t, n) == [k |-> "mem", t |-> t, n |-> n, s |-> 0]
Ref(t, s) == [k |-> "ref", t |-> t, n |-> "", s |-> s]
Obj(t, tag, o) == [t |-> t, tag |-> tag, o |-> o]
Made(o) == [c |-> "obj", o |-> o, e |-> {}]
Exc(S) == [c |-> "exc", o |-> Obj(0, "", <<>>), e |-> S]
KeyTag(t) == ToString(t)
Rt(ty, t) == Root(Unmod(ty[t]))
OfType(ty, v, T) == Sub(ty[v.t], T)
FieldNames(r) == {r.o[i].n : i \in 1..Len(r.o)} \cup {f.n : f \in r.u}
FieldNamed(r, n) == IF r.k \in Ordered THEN (CHOOSE i \in 1..Len(r.o) : r.o[i].n = n) ELSE 1
TypeNamed(r, n) == IF r.k \in Ordered THEN r.o[FieldNamed(r, n)].t ELSE (CHOOSE f \in r.u : f.n = n).t

(* --- construction ------------------------------------------------------- *)
Make(ty, t, vs, kw) ==
    LET r == Rt(ty, t)
        names == {kw[i].n : i \in 1..Len(kw)}
        rest == {r.o[i].n : i \in (Len(vs) + 1)..Len(r.o)}
        all == [i \in 1..Len(r.o) |-> IF i <= Len(vs) THEN vs[i] ELSE kw[CHOOSE j \in 1..Len(kw) : kw[j].n = r.o[i].n].v]
    IN  CASE r.k \in Ordered ->
               IF Len(vs) > Len(r.o) \/ names # rest \/ (r.k = "tuple" /\ (kw # <<>> \/ Len(vs) # Len(r.o))) THEN Exc({"TypeError", "ValueError"})
               ELSE IF \E i \in 1..Len(all) : ~OfType(ty, all[i], r.o[i].t) THEN Exc({"TypeError"})
               ELSE Made(Obj(t, "", all))
          [] r.k = "sum" ->
               IF Len(vs) # 1 \/ kw # <<>> THEN Exc({"TypeError"})
               ELSE IF ty[vs[1].t] \in FieldTypes(r) THEN Made(Obj(t, KeyTag(vs[1].t), vs)) ELSE Exc({"TypeError"})
          [] r.k = "tu" ->
               IF vs # <<>> THEN Exc({"TypeError"})
               ELSE IF Len(kw) # 1 \/ ~(names \subseteq FieldNames(r)) THEN Exc({"ValueError"})
               ELSE IF OfType(ty, kw[1].v, TypeNamed(r, kw[1].n)) THEN Made(Obj(t, kw[1].n, <<kw[1].v>>)) ELSE Exc({"TypeError"})
(* --- assignment ------------------------------------------------------------ *)
SetItem(ty, b, i, v) ==
    LET r == Rt(ty, b.t)
        n == Len(b.o)
        q == IF i < 0 THEN n + i + 1 ELSE i + 1
    IN  IF r.k = "tu" THEN Exc({"TypeError"})
        ELSE IF ~(q \in 1..n) THEN Exc({"IndexError"})
        ELSE IF OfType(ty, v, r.o[q].t) THEN Made([b EXCEPT !.o[q] = v]) ELSE Exc({"TypeError"})
SetName(ty, b, n, v) ==
    LET r == Rt(ty, b.t)
    IN  IF ~OfType(ty, v, TypeNamed(r, n)) THEN Exc({"TypeError"})
        ELSE IF r.k = "tu" THEN Made(Obj(b.t, n, <<v>>)) ELSE Made([b EXCEPT !.o[FieldNamed(r, n)] = v])
SetAlt(ty, b, T, v) ==
    LET r == Rt(ty, b.t)
    IN  IF r.k = "sum" /\ ty[T] \in FieldTypes(r) /\ OfType(ty, v, ty[T]) THEN Made(Obj(b.t, KeyTag(T), <<v>>)) ELSE Exc({"TypeError"})
(* --- dictionaries of values ---------------------------------------------------- *)
\* keys: field names, positions, or alternatives
NoneT(ty, v) == ty[v.t].n = "NoneType"
FromValues(ty, t, d) ==
    LET r == Rt(ty, t)
        have == {d[i].n : i \in 1..Len(d)}
        key(T) == KeyTag(CHOOSE s \in DOMAIN ty : ty[s] = T)
        want == CASE r.k = "tuple" -> {ToString(i - 1) : i \in 1..Len(r.o)} [] r.k = "sum" -> {key(T) : T \in FieldTypes(r)} [] OTHER -> FieldNames(r)
        of(n) == d[CHOOSE i \in 1..Len(d) : d[i].n = n].v
        typ(n) == IF r.k = "sum" THEN CHOOSE T \in FieldTypes(r) : key(T) = n ELSE TypeNamed(r, n)
        act == {n \in have : ~NoneT(ty, of(n))}
        the == CHOOSE n \in act : TRUE
    IN  IF have # want THEN Exc({"ValueError"})
        ELSE IF r.k \in Ordered
             THEN LET vs == [i \in 1..Len(r.o) |-> of(IF r.k = "tuple" THEN ToString(i - 1) ELSE r.o[i].n)]
                  IN  IF \E i \in 1..Len(vs) : ~OfType(ty, vs[i], r.o[i].t) THEN Exc({"TypeError"}) ELSE Made(Obj(t, "", vs))
             ELSE IF \E n \in act : ~OfType(ty, of(n), typ(n)) THEN Exc({"TypeError"} \cup (IF Cardinality(act) # 1 THEN {"ValueError"} ELSE {}))
             ELSE IF Cardinality(act) # 1 THEN Exc({"ValueError"})
             ELSE Made(Obj(t, the, <<of(the)>>))
\* what value_dict gives, as a set
Dict(ty, b, none) ==
    LET r == Rt(ty, b.t) IN
    CASE r.k = "tuple" -> {[n |-> ToString(i - 1), v |-> b.o[i]] : i \in 1..Len(b.o)}
      [] r.k \in {"anon", "product"} -> {[n |-> r.o[i].n, v |-> b.o[i]] : i \in 1..Len(b.o)}
      [] r.k = "tu" -> {[n |-> x, v |-> IF x = b.tag THEN b.o[1] ELSE none] : x \in FieldNames(r)}
      [] r.k = "sum" -> {[n |-> x, v |-> IF x = b.tag THEN b.o[1] ELSE none] : x \in {KeyTag(CHOOSE s \in DOMAIN ty : ty[s] = T) : T \in FieldTypes(r)}}
(* --- equality --------------------------------------------------------------------- *)
Number(t) == t.k = "leaf" /\ FamSub(t.n, "int")
SumLike(k) == k \in {"sum", "tu"}
RECURSIVE Eq(_, _, _, _)
Eq(ty, h, v, w) ==
    IF v.k # w.k THEN FALSE
    ELSE CASE v.k = "leaf" -> (IF Number(ty[v.t]) /\ Number(ty[w.t]) THEN v.n = w.n ELSE ty[v.t] = ty[w.t] /\ v.n = w.n)
           [] v.k = "mem" -> ty[v.t] = ty[w.t] /\ TypeNamed(ty[v.t], v.n) = TypeNamed(ty[w.t], w.n)
           [] v.k = "ref" -> /\ Sub(ty[v.t], ty[w.t]) \/ Sub(ty[w.t], ty[v.t])
                             /\ h[v.s].tag = h[w.s].tag
                             /\ \A i \in 1..Len(h[v.s].o) : Eq(ty, h, h[v.s].o[i], h[w.s].o[i])
\* a sum and a tagged union of the same alternatives: not specified
RECURSIVE Comparable(_, _, _, _)
Comparable(ty, h, v, w) ==
    IF v.k # "ref" \/ w.k # "ref" THEN TRUE
    ELSE LET a == Rt(ty, v.t).k
             b == Rt(ty, w.t).k
         IN  /\ ~(SumLike(a) /\ SumLike(b) /\ a # b)
             /\ (Len(h[v.s].o) = Len(h[w.s].o) => \A i \in 1..Len(h[v.s].o) : Comparable(ty, h, h[v.s].o[i], h[w.s].o[i]))
(* --- visits -------------------------------------------------------------------------- *)
RECURSIVE Visits(_, _, _)
Visits(ty, h, v) ==
    IF v.k # "ref" THEN <<[h |-> IF v.k = "mem" THEN "Enum" ELSE "leaf", v |-> v]>>
    ELSE LET r == Rt(ty, v.t)
             n == CASE r.k = "product" -> "Product" [] r.k \in {"tuple", "anon"} -> "Tuple" [] r.k = "tu" -> "TaggedUnion" [] r.k = "sum" -> "Sum"
         IN  FoldLeft(LAMBDA acc, x : acc \o Visits(ty, h, x), <<[h |-> n, v |-> v]>>, h[v.s].o)
(* --- invariant ------------------------------------------------------------------------ *)
WellTyped(ty, b) ==
    LET r == Rt(ty, b.t) IN
    CASE r.k \in Ordered -> Len(b.o) = Len(r.o) /\ \A i \in 1..Len(r.o) : OfType(ty, b.o[i], r.o[i].t)
      [] r.k = "tu" -> Len(b.o) = 1 /\ b.tag \in FieldNames(r) /\ OfType(ty, b.o[1], TypeNamed(r, b.tag))
      [] r.k = "sum" -> Len(b.o) = 1 /\ \E s \in DOMAIN ty : KeyTag(s) = b.tag /\ ty[s] \in FieldTypes(r) /\ OfType(ty, b.o[1], ty[s])
RECURSIVE Reach(_, _)
Reach(h, v) == IF v.k # "ref" THEN {} ELSE {v.s} \cup UNION {Reach(h, h[v.s].o[i]) : i \in 1..Len(h[v.s].o)}
=============================================================================
