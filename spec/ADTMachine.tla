----------------------------- MODULE ADTMachine -----------------------------
(***************************************************************************)
(* Histories of making types: registers hold types, actions define, index,  *)
(* derive, modify, rebind, strip, push, enumerate, visit, drop and collect. *)
(* What each action yields is given by ADT; ADTTrace replays the recorded   *)
(* histories against the same theory.                                       *)
(***************************************************************************)
EXTENDS ADT, Json, IOUtils
CONSTANTS NR, MaxLen, Focus, Leaves, MaxSize
\* the leaves used where the leaves matter little, or a lot
LeafSet == IF Focus = "C23" THEN {<<"A", 0>>, <<"B", 0>>, <<"int", 0>>, <<"Bit", 0>>, <<"BitVector", 2>>}
           ELSE IF Focus \in {"C22", "C25", "C27"} THEN {<<"A", 0>>, <<"C", 0>>, <<"int", 0>>, <<"K", 0>>, <<"Bit", 0>>, <<"BitVector", 2>>, <<"UIntVector", 2>>, <<"BitVector", 8>>}
           ELSE {<<"A", 0>>, <<"B", 0>>, <<"C", 0>>, <<"D", 0>>, <<"int", 0>>, <<"AbstractBit", 0>>, <<"Bit", 0>>, <<"SMTBit", 0>>} \cup
                (({"AbstractBitVector", "BitVector", "UIntVector", "SIntVector", "SMTBitVector", "SMTUIntVector", "z3BitVector"} \X {2, 8}) \cup ({"BitVector", "SMTBitVector"} \X {0}))
VARIABLES regs, mods, prog, next
vars == <<regs, mods, prog, next>>
NoT == Leaf("", -1)
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* a random draw in which w of 20 fall to the action
Used == {i \in 1..NR : regs[i].sz # -1}
LeafTypes == {Leaf(x[1], x[2]) : x \in Leaves}
NamesSeq == <<"a", "b", "c", "self", "x_1", "cls">>
Log(e) == prog' = Append(prog, e)
Put(d, t) == regs' = [regs EXCEPT ![d] = t]
KeepM == UNCHANGED mods
KeepN == UNCHANGED next
Small(t) == Size(t) <= MaxSize
FieldRegs == {i \in Used : Size(regs[i]) < MaxSize - 1}
\* n random field registers
Pick(n) == IF FieldRegs = {} THEN {} ELSE {[q \in 1..n |-> RandomElement(FieldRegs)]}
PickN(n) == {[i \in 1..n |-> NamesSeq[((i + RandomElement(0..1)) % 6) + 1]]}
Distinct(ns) == \A i, j \in 1..Len(ns) : i # j => ns[i] # ns[j]
Us(k) == {i \in Used : regs[i].k = "U" /\ regs[i].mods = <<>> /\ Makes(regs[i]) = k}
\* an unbound constructor of kind k: a register of one, or 0 for the library's
Uof(k) == R(Us(k) \cup {0}) 
Lib(k) == CASE k = "tuple" -> TupleU [] k = "sum" -> SumU [] k = "anon" -> AnonU [] k = "product" -> Builtin.Product [] k = "tu" -> Builtin.TaggedUnion [] k = "enum" -> Builtin.Enum
UT(i, k) == IF i = 0 THEN Lib(k) ELSE regs[i]

LeafA(d) == \E t \in R(LeafTypes) : Put(d, t) /\ Log([a |-> "leaf", n |-> t.n, sz |-> t.sz, dst |-> d]) /\ KeepM /\ KeepN
Index(d, k) ==
    \E n \in R(0..3), u \in Uof(k) : \E x \in Pick(n) : \E ns \in PickN(n) :
      LET t == Bind(UT(u, k), [i \in 1..n |-> Fld(IF k = "anon" THEN ns[i] ELSE "", regs[x[i]])], "", 0)
          ok == Small(t) /\ (k = "anon" => Distinct(ns)) /\ (k = "sum" => n > 0)
      IN  IF ok THEN Put(d, t) /\ Log([a |-> "index", kind |-> k, un |-> u, x |-> x, names |-> ns, dst |-> d]) /\ KeepM /\ KeepN
          ELSE LeafA(d)
Define(d, k) ==
    \E n \in R(1..3), u \in Uof(k), cache \in R({0, 1, 2, 2, 3}), how \in R({"class", "from_fields"}), name \in R({"P", "Q"}) :
    \E x \in Pick(n) : \E ns \in PickN(n) :
      LET id == IF cache = 0 THEN next ELSE 0
          t == Bind(UT(u, k), [i \in 1..n |-> Fld(ns[i], regs[x[i]])], name, id)
      IN  IF Small(t) /\ Distinct(ns)
          THEN /\ Put(d, t) /\ next' = next + 1 /\ KeepM
               /\ Log([a |-> "define", kind |-> k, un |-> u, x |-> x, names |-> ns, cache |-> cache, how |-> how, name |-> name, dst |-> d])
          ELSE LeafA(d)
EnumA(d) ==
    \E n \in R(1..3), u \in Uof("enum"), auto \in R({0, 0, 1}), vs \in {[i \in 1..3 |-> RandomElement({0, 1, 5})]}, name \in R({"E", "F"}), how \in R({"class", "from_fields"}),
       cache \in R({0, 1, 2, 3}), rot \in R(0..1) :
      LET ns == <<"p", "q", "r">>
          m == [i \in 1..n |-> Fld(ns[i], IF auto = 1 /\ i = 1 THEN Leaf("auto" \o ToString(next), 0) ELSE Leaf(ToString(vs[i]), 0))]
          id == IF cache = 0 THEN next ELSE 0
      IN  /\ Put(d, Bind(UT(u, "enum"), m, name, id)) /\ next' = next + 1 /\ KeepM
          /\ Log([a |-> "enum", un |-> u, n |-> n, auto |-> auto, vs |-> vs, name |-> name, how |-> how, cache |-> cache, rot |-> rot, dst |-> d])
UnboundK(d, ks) ==
    \E k \in R(ks) : \E u \in Uof(k) :
      /\ Put(d, Mk("U", "Mine", 0, <<UT(u, k)>>, <<>>, {}, next)) /\ next' = next + 1 /\ KeepM
      /\ Log([a |-> "unbound", kind |-> k, un |-> u, dst |-> d])
Unbound(d) == UnboundK(d, Bound)
\* a definition again, or almost
RedoA(d, i) ==
    IF regs[i].k \in Bound /\ ~Modified(regs[i])
    THEN \E var \in R({"same", "reverse", "type", "field", "drop", "cache", "name", "at"} \cup (IF Us(regs[i].k) # {} /\ RandomElement(1..2) = 1 THEN {"base"} ELSE {})), p \in R(1..3), fn \in R({"a", "b", "c", "self", "p", "q", "r"}), y \in R(FieldRegs \cup {i}),
            name \in R({"P", "Q", "E", "F"}), at \in R({"", "1", "2"}), u \in (IF Us(regs[i].k) # {} /\ RandomElement(1..3) > 1 THEN R(Us(regs[i].k)) ELSE {0}), how \in R({"class", "from_fields"}) :
         LET e == [var |-> var, p |-> p, fn |-> fn, name |-> name, at |-> at]
             t == Redo(regs[i], e, regs[y], UT(u, regs[i].k), next)
         IN  IF Small(t)
             THEN /\ Put(d, t) /\ next' = next + 1 /\ KeepM
                  /\ Log([a |-> "redo", x |-> <<i, y>>, e |-> e, un |-> u, kind |-> regs[i].k, how |-> how, dst |-> d])
             ELSE LeafA(d)
    ELSE LeafA(d)
Derive(d, i) ==
    IF regs[i].k \in Bound \ {"enum"} /\ regs[i].mods = <<>>
    THEN /\ Put(d, Mk("derived", "Derived", 0, <<regs[i]>>, <<>>, {}, next)) /\ next' = next + 1 /\ KeepM
         /\ Log([a |-> "derive", x |-> <<i>>, dst |-> d])
    ELSE LeafA(d)
\* make_modifier: cached by name, or new
MkMod(q) == \E name \in R({"M", "N", "O"}), c \in R({0, 1}) :
    /\ mods' = [mods EXCEPT ![q] = IF c = 1 THEN name ELSE name \o "#" \o ToString(next)]
    /\ next' = next + 1 /\ UNCHANGED regs /\ Log([a |-> "mkmod", m |-> q, name |-> name, cache |-> c])
Mod(d, i, q) ==
    IF mods[q] = "" THEN MkMod(q)
    ELSE IF mods[q] \in Range(regs[i].mods) THEN UNCHANGED regs /\ Log([a |-> "mod", m |-> q, x |-> <<i>>, dst |-> d]) /\ KeepM /\ KeepN
    ELSE IF Len(regs[i].mods) >= 3 THEN Put(d, Unmod(regs[i])) /\ Log([a |-> "unwrap", x |-> <<i>>, dst |-> d]) /\ KeepM /\ KeepN
    ELSE Put(d, Wrap(regs[i], <<mods[q]>>)) /\ Log([a |-> "mod", m |-> q, x |-> <<i>>, dst |-> d]) /\ KeepM /\ KeepN
WrapA(d, i) == \E qs \in {[j \in 1..RandomElement(0..3) |-> RandomElement({q \in DOMAIN mods : mods[q] # ""} \cup {1})]} :
    IF \E j \in DOMAIN qs : mods[qs[j]] = "" THEN MkMod(1)
    ELSE LET ms == [j \in 1..Len(qs) |-> mods[qs[j]]] IN
         IF Len(regs[i].mods) + Len(ms) > 4 THEN LeafA(d)
         ELSE /\ Put(d, IF IsInjective(regs[i].mods \o ms) THEN Wrap(regs[i], ms) ELSE regs[d])
              /\ Log([a |-> "wrap", x |-> <<i>>, ms |-> qs, dst |-> d]) /\ KeepM /\ KeepN
Look(w, i) == UNCHANGED regs /\ Log([a |-> w, x |-> <<i>>]) /\ KeepM /\ KeepN
Vecs == {"BitVector", "SMTBitVector", "UIntVector", "SIntVector", "AbstractBitVector", "z3BitVector", "NumVector"}
RebindA(d, i) ==
    \E w \in R(1..8), sub \in R({0, 1}), rec \in R({0, 1, 2}), f0 \in R(Vecs), f1 \in R(Vecs \ {"AbstractBitVector", "NumVector"}), keep \in R({0, 1}),
       fam \in R(DOMAIN FamVec) :
      LET t == regs[i]
          ins == {j \in Used : regs[j] \in Nodes(t) \ {t}}
      IN  \E A \in R(IF ins # {} /\ RandomElement(1..4) > 1 THEN ins ELSE Used), B \in R({j \in Used : ~Modified(regs[j]) /\ Size(regs[j]) < 6}) :
            CASE w \in 1..3 -> (IF Plain(t)
                   THEN /\ LET n == Rebind(t, regs[A], regs[B], sub = 1, rec # 0) IN IF Small(n) THEN Put(d, n) ELSE UNCHANGED regs
                        /\ Log([a |-> "rebind", x |-> <<i, A, B>>, sub |-> sub, rec |-> rec, dst |-> d]) /\ KeepM /\ KeepN
                   ELSE Look("report", i))
              [] w \in 4..5 -> (IF (keep = 1 /\ PlainKeep(t)) \/ (keep = 0 /\ Plain(t))
                   THEN /\ Put(d, RebindBV(t, f0, f1, keep = 1)) /\ Log([a |-> "rebind_bv", x |-> <<i>>, f0 |-> f0, f1 |-> f1, keep |-> keep, dst |-> d]) /\ KeepM /\ KeepN
                   ELSE Look("report", i))
              [] w \in 6..7 -> (IF PlainKeep(t) /\ ~Modified(regs[A])
                   THEN /\ LET n == RebindKeep(t, regs[A], regs[B]) IN IF Small(n) THEN Put(d, n) ELSE UNCHANGED regs
                        /\ Log([a |-> "rebind_keep", x |-> <<i, A, B>>, dst |-> d]) /\ KeepM /\ KeepN
                   ELSE Look("report", i))
              [] w = 8 -> (IF PlainKeep(t) /\ PlainLeaf(t)
                   THEN /\ Put(d, RebindType(t, fam)) /\ Log([a |-> "rebind_type", x |-> <<i>>, fam |-> fam, dst |-> d]) /\ KeepM /\ KeepN
                   ELSE Look("report", i))
StripA(d, i) == IF PlainKeep(regs[i]) THEN Put(d, Strip(regs[i])) /\ Log([a |-> "strip", x |-> <<i>>, dst |-> d]) /\ KeepM /\ KeepN ELSE Look("report", i)
PushA(d, i) == IF PlainKeep(regs[i]) THEN (IF CanPush(regs[i], <<>>) THEN Put(d, Push(regs[i], <<>>)) ELSE UNCHANGED regs)
                                          /\ Log([a |-> "push", x |-> <<i>>, dst |-> d]) /\ KeepM /\ KeepN ELSE Look("report", i)
Drop(i) == regs' = [regs EXCEPT ![i] = NoT] /\ Log([a |-> "drop", x |-> <<i>>]) /\ KeepM /\ KeepN
Bad(i) == Look("bad", i)
DefineAny(d, i) == \E w \in R(1..10) :
    CASE w \in 1..2 -> LeafA(d) [] w = 3 -> Index(d, "tuple") [] w = 4 -> Index(d, "anon") [] w = 5 -> Index(d, "sum")
      [] w \in 6..7 -> Define(d, "product") [] w = 8 -> Define(d, "tu") [] w = 9 -> EnumA(d)
      [] w = 10 -> IF RandomElement(1..2) = 1 THEN Unbound(d) ELSE Derive(d, i)
Step ==
    \E w \in R(1..20), d \in R(1..NR) :
      IF Cardinality(Used) < 3 THEN LeafA(d)
      ELSE \E i \in R(Used), q \in R(1..3), adt \in R({j \in Used : regs[j].k \in Bound} \cup {CHOOSE j \in Used : TRUE}) :
        IF w <= 8 THEN DefineAny(d, i)
        ELSE CASE Focus = "C22" -> (CASE w = 9 -> UnboundK(d, {k \in Bound : k = regs[adt].k \/ regs[adt].k \notin Bound}) [] w \in 10..13 -> RedoA(d, adt) [] w = 14 -> Drop(i) [] w = 15 -> (IF RandomElement(1..2) = 1 THEN Mod(d, i, q) ELSE Drop(i)) [] w \in 16..18 -> Look("report", i)
                                      [] w = 19 -> (IF RandomElement(1..2) = 1 THEN Bad(i) ELSE Look("body", i)) [] w = 20 -> Look("gc", i))
               [] Focus = "C23" -> (CASE w \in 9..16 -> (IF Count(regs[adt]) <= 60 THEN Look("enumerate", adt) ELSE LeafA(d)) [] w = 17 -> EnumA(d) [] w = 18 -> Look("members", adt)
                                      [] w = 19 -> Drop(i) [] w = 20 -> Look("gc", i))
               [] Focus = "C24" -> (CASE w \in 9..17 -> RebindA(d, adt) [] w = 18 -> RebindA(d, i) [] w = 19 -> Mod(d, i, q) [] w = 20 -> Drop(i))
               [] Focus = "C25" -> (CASE w \in 9..12 -> Mod(d, i, q) [] w = 13 -> MkMod(q) [] w = 14 -> WrapA(d, i) [] w = 15 -> Look("unwrap1", i)
                                      [] w \in 16..17 -> Look("modreport", i) [] w = 18 -> (IF RandomElement(1..3) = 1 THEN Unbound(d) ELSE Drop(i)) [] w = 19 -> Look("gc", i) [] w = 20 -> Look("report", i))
               [] Focus = "C26" -> (CASE w \in 9..12 -> Mod(d, i, q) [] w = 13 -> Mod(d, adt, q) [] w \in 14..16 -> StripA(d, adt) [] w \in 17..19 -> PushA(d, adt) [] w = 20 -> Look("both", adt))
               [] Focus = "C27" -> (CASE w \in 9..17 -> Look("visit", adt) [] w = 18 -> Mod(d, i, q) [] w = 19 -> Look("isadt", i) [] w = 20 -> Look("visit", i))
Emit == /\ Len(prog) = MaxLen /\ TLCSet(1, Append(TLCGet(1), prog))
        /\ prog' = Append(prog, [a |-> "end"]) /\ UNCHANGED <<regs, mods, next>>
Init == TLCSet(1, <<>>) /\ regs = [i \in 1..NR |-> NoT] /\ mods = [q \in 1..3 |-> ""] /\ prog = <<>> /\ next = 1
Next == (Len(prog) < MaxLen /\ Step) \/ Emit
Spec == Init /\ [][Next]_vars
\* laws of the theory, on every type reached
Laws == \A i \in Used : LET t == regs[i] IN
    /\ Sub(t, t) /\ Size(t) <= 2 * MaxSize
    /\ Match(t, t)
    /\ (PlainKeep(t) => NoMods(Strip(t)) /\ (CanPush(t, <<>>) /\ NoIds(t) => Strip(Push(t, <<>>)) = Strip(t)) /\ Strip(Strip(t)) = Strip(t))
    /\ \A j \in Used : Sub(t, regs[j]) /\ Sub(regs[j], t) => t = regs[j]
    /\ \A j, k \in Used : Sub(t, regs[j]) /\ Sub(regs[j], regs[k]) => Sub(t, regs[k])
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
