-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* Mappings: plain ones (dict, odict: ordered, user: any other mapping,     *)
(* proxy: a view of a dict) and frozen ones (fd, ofd: ordered).  Contents   *)
(* are sequences of [n: key, v: value]; a value is [k, n, o]: a number "int"*)
(* or a frozen dictionary with its contents.                                *)
(* Typed properties: [T, g, s, d], the type and the accessors (0: none).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Num(n) == [k |-> "int", n |-> n, o |-> <<>>]
Frozen == {"fd", "ofd"}
InOrder == {"ofd", "odict"}
Keys(o) == {o[i].n : i \in 1..Len(o)}
At(o, n) == o[CHOOSE i \in 1..Len(o) : o[i].n = n].v
Put(o, n, v) == IF n \in Keys(o) THEN [i \in 1..Len(o) |-> IF o[i].n = n THEN [n |-> n, v |-> v] ELSE o[i]] ELSE Append(o, [n |-> n, v |-> v])
Del(o, n) == SelectSeq(o, LAMBDA x : x.n # n)
PutAll(o, xs) == FoldLeft(LAMBDA a, x : Put(a, x.n, x.v), o, xs)
RECURSIVE Same(_, _, _, _)
ValEq(v, w) == IF v.k = "int" \/ w.k = "int" THEN v.k = w.k /\ v.n = w.n ELSE Same(v.k, v.o, w.k, w.o)
Same(k1, o1, k2, o2) ==
    IF k1 \in InOrder /\ k2 \in InOrder
    THEN Len(o1) = Len(o2) /\ \A i \in 1..Len(o1) : o1[i].n = o2[i].n /\ ValEq(o1[i].v, o2[i].v)
    ELSE Keys(o1) = Keys(o2) /\ \A n \in Keys(o1) : ValEq(At(o1, n), At(o2, n))
(* --- typed properties ------------------------------------------------------ *)
Prop(T, g, s, d) == [T |-> T, g |-> g, s |-> s, d |-> d]
SubT(a, b) == a = b \/ b = "object" \/ (a = "K" /\ b = "int")
=============================================================================
