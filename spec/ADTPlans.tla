------------------------------ MODULE ADTPlans ------------------------------
(***************************************************************************)
(* Every nesting of two constructors with every placement of modifiers (on  *)
(* the leaf, on the inner and on the outer type), each with every rebinding, *)
(* stripping and pushing that is defined on it.  The laws of ADTMachine are  *)
(* checked on all of these types; the programs are replayed on the library.  *)
(***************************************************************************)
EXTENDS ADTMachine
VARIABLE plan
Leaves2 == {<<"BitVector", 2>>, <<"UIntVector", 2>>, <<"SIntVector", 8>>, <<"SMTBitVector", 8>>, <<"BitVector", 0>>, <<"Bit", 0>>, <<"AbstractBitVector", 2>>}
Kinds == {"tuple", "anon", "product", "sum", "tu"}
Plans == [outer : Kinds, inner : Kinds \cup {"none"}, ml : {0, 1}, mi : {0, 1}, mo : {<<>>, <<1>>, <<2>>, <<2, 1>>}]
\* the leaf of a plan depends on the seed: another seed, other leaves
VARIABLE leaf
KindNo(k) == CASE k = "none" -> 0 [] k = "tuple" -> 1 [] k = "anon" -> 2 [] k = "product" -> 3 [] k = "sum" -> 4 [] k = "tu" -> 5
Seed == CHOOSE n \in 0..999 : ToString(n) = IOEnv.SEEDN
LeafSeq == SetToSeq(Leaves2)
LeafOf(p) == LeafSeq[1 + ((Seed + p.ml + 2 * p.mi + 3 * Len(p.mo) + 5 * KindNo(p.inner) + KindNo(p.outer)) % 7)]
M == <<"M", "N">>
BindK(k, a, b, name) ==
    Bind(Lib(k), <<Fld(CASE k \in {"tuple", "sum"} -> "" [] OTHER -> "a", a), Fld(CASE k \in {"tuple", "sum"} -> "" [] OTHER -> "b", b)>>, IF k \in Attr THEN name ELSE "", 0)
Made(p, lf) ==
    LET l1 == Leaf(lf[1], lf[2])
        l2 == IF p.ml = 1 THEN Wrap(l1, <<M[1]>>) ELSE l1
        a == Leaf("A", 0)
        i1 == IF p.inner = "none" THEN a ELSE BindK(p.inner, l2, a, "P")
        i2 == IF p.mi = 1 THEN Wrap(i1, <<M[2]>>) ELSE i1
        o1 == BindK(p.outer, i2, l2, "Q")
    IN  <<l1, l2, a, i1, i2, o1, Wrap(o1, [j \in 1..Len(p.mo) |-> M[p.mo[j]]]), Leaf("int", 0)>>
\* how the types come about
MakeSteps(p, lf) ==
    LET leafs(n, sz, d) == <<[a |-> "leaf", n |-> n, sz |-> sz, dst |-> d]>>
        mod(m, i, d) == <<[a |-> "mod", m |-> m, x |-> <<i>>, dst |-> d]>>
        bind(k, x, name, d) ==
            IF k \in {"product", "tu"} THEN <<[a |-> "define", kind |-> k, un |-> 0, x |-> x, names |-> <<"a", "b">>, cache |-> 1, how |-> "class", name |-> name, dst |-> d]>>
            ELSE <<[a |-> "index", kind |-> k, un |-> 0, x |-> x, names |-> <<"a", "b">>, dst |-> d]>>
        same(i, d) == <<[a |-> "wrap", ms |-> <<>>, x |-> <<i>>, dst |-> d]>>
    IN  <<[a |-> "mkmod", m |-> 1, name |-> M[1], cache |-> 1], [a |-> "mkmod", m |-> 2, name |-> M[2], cache |-> 1]>>
        \o leafs(lf[1], lf[2], 1) \o (IF p.ml = 1 THEN mod(1, 1, 2) ELSE same(1, 2)) \o leafs("A", 0, 3)
        \o (IF p.inner = "none" THEN leafs("A", 0, 4) ELSE bind(p.inner, <<2, 3>>, "P", 4)) \o (IF p.mi = 1 THEN mod(2, 4, 5) ELSE same(4, 5))
        \o bind(p.outer, <<5, 2>>, "Q", 6)
        \o [j \in 1..1 |-> [a |-> "wrap", ms |-> p.mo, x |-> <<6>>, dst |-> 7]] \o leafs("int", 0, 8)
If(c, s) == IF c THEN <<s>> ELSE <<>>
Fold(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)
OpSteps(p, lf) ==
    LET ts == Made(p, lf)
        t == ts[7]
        bv(q) == If((q[3] = 1 /\ PlainKeep(t)) \/ (q[3] = 0 /\ Plain(t)), [a |-> "rebind_bv", x |-> <<7>>, f0 |-> q[1], f1 |-> q[2], keep |-> q[3], dst |-> 9 + q[3]])
        keep(q) == If(PlainKeep(t) /\ ~Modified(ts[q[1]]) /\ ~Modified(ts[q[2]]), [a |-> "rebind_keep", x |-> <<7, q[1], q[2]>>, dst |-> 11])
        reb(q) == If(Plain(t) /\ ~Modified(ts[q[2]]), [a |-> "rebind", x |-> <<7, q[1], q[2]>>, sub |-> q[3], rec |-> q[4], dst |-> 12])
        ty(f) == If(PlainKeep(t) /\ PlainLeaf(t), [a |-> "rebind_type", x |-> <<7>>, fam |-> f, dst |-> 13])
    IN  CASE Focus = "C24" -> Fold(bv, <<<<"BitVector", "SMTBitVector", 1>>, <<"BitVector", "SMTBitVector", 0>>, <<"AbstractBitVector", "UIntVector", 1>>, <<"AbstractBitVector", "z3BitVector", 0>>,
                                      <<"UIntVector", "BitVector", 1>>, <<"SMTBitVector", "SIntVector", 1>>, <<(IF lf[1] = "Bit" THEN "NumVector" ELSE lf[1]), "UIntVector", 1>>>>)
                            \o Fold(keep, <<<<1, 8>>, <<4, 8>>, <<3, 1>>, <<6, 8>>, <<8, 1>>, <<1, 4>>>>)
                            \o Fold(reb, <<<<1, 8, 0, 1>>, <<2, 8, 0, 1>>, <<2, 8, 1, 0>>, <<4, 8, 0, 0>>, <<5, 3, 0, 1>>, <<3, 8, 1, 1>>, <<3, 1, 0, 0>>, <<1, 8, 1, 1>>, <<6, 8, 1, 1>>, <<8, 3, 1, 1>>>>)
                            \o Fold(ty, <<"BitVector", "SMTBitVector", "z3BitVector">>)
          [] Focus = "C25" -> <<[a |-> "modreport", x |-> <<7>>], [a |-> "unwrap", x |-> <<7>>, dst |-> 9], [a |-> "modreport", x |-> <<5>>], [a |-> "mod", m |-> 2, x |-> <<9>>, dst |-> 10],
                                [a |-> "wrap", ms |-> <<1, 2>>, x |-> <<6>>, dst |-> 11], [a |-> "unwrap", x |-> <<11>>, dst |-> 12], [a |-> "modreport", x |-> <<11>>],
                                [a |-> "unwrap1", x |-> <<11>>], [a |-> "report", x |-> <<7>>]>>
          [] Focus = "C26" -> If(PlainKeep(t), [a |-> "strip", x |-> <<7>>, dst |-> 9]) \o If(PlainKeep(t), [a |-> "push", x |-> <<7>>, dst |-> 10]) \o <<[a |-> "both", x |-> <<7>>]>>
                            \o If(PlainKeep(t), [a |-> "strip", x |-> <<6>>, dst |-> 11]) \o If(PlainKeep(t), [a |-> "push", x |-> <<6>>, dst |-> 12])
          [] Focus = "C27" -> <<[a |-> "visit", x |-> <<7>>], [a |-> "visit", x |-> <<6>>], [a |-> "isadt", x |-> <<7>>]>>
PInit == Init /\ plan \in Plans /\ leaf = LeafOf(plan)
PNext == FALSE /\ UNCHANGED <<vars, plan, leaf>>
PSpec == PInit /\ [][PNext]_<<vars, plan, leaf>>
\* the laws of the theory hold of every planned type with every leaf
PLaws == \A lf \in Leaves2 : LET ts == Made(plan, lf) IN
    /\ \A i \in 1..Len(ts) : LET t == ts[i] IN
         /\ Sub(t, t) /\ Match(t, t)
         /\ NoMods(Strip(t)) /\ (CanPush(t, <<>>) => Strip(Push(t, <<>>)) = Strip(t) /\ Push(Push(t, <<>>), <<>>) = Push(t, <<>>)) /\ Strip(Strip(t)) = Strip(t)
         /\ RebindBV(t, "BitVector", "BitVector", TRUE) = t \/ lf[1] \in {"UIntVector", "SIntVector"}
         /\ \A j \in 1..Len(ts) : (Sub(t, ts[j]) /\ Sub(ts[j], t) => t = ts[j]) /\ (~Modified(ts[j]) => RebindKeep(t, ts[j], ts[j]) = t \/ \E x \in Nodes(t) : Sub(Unmod(x), ts[j]) /\ Unmod(x) # ts[j])
    /\ \A i, j, k \in 1..Len(ts) : Sub(ts[i], ts[j]) /\ Sub(ts[j], ts[k]) => Sub(ts[i], ts[k])
Emitted == TLCSet(1, Append(TLCGet(1), MakeSteps(plan, leaf) \o OpSteps(plan, leaf)))
=============================================================================
