----------------------------- MODULE ValMachine -----------------------------
(***************************************************************************)
(* Histories of values: registers refer to objects; actions construct them  *)
(* with right and wrong arguments, assign fields, alternatives and items    *)
(* (also of objects that others refer to), compare, view, visit and rebuild.*)
(***************************************************************************)
EXTENDS ValPool, Json, IOUtils
CONSTANTS NR, MaxLen, Focus
VARIABLES regs, heap, prog
vars == <<regs, heap, prog>>
NoV == Const("NoneType", "")
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Used == {i \in 1..NR : regs[i] # NoV}
Vals == Literals \cup {regs[i] : i \in Used}
Des(v) == [k |-> v.k, t |-> v.t, n |-> v.n, x |-> IF v.k = "ref" THEN CHOOSE i \in Used : regs[i] = v ELSE 0]
Log(e) == prog' = Append(prog, e)
\* mostly a value of type T
Good(T) == {v \in Vals : OfType(Pool, v, T)}
Objs(T) == {v \in Good(T) : v.k = "ref"}
Arg(T) == CHOOSE v \in {LET g == IF Objs(T) # {} /\ RandomElement(1..3) > 1 THEN Objs(T) ELSE Good(T) IN
                        IF g = {} \/ RandomElement(1..12) = 1 THEN RandomElement(Vals) ELSE RandomElement(g)} : TRUE
Kinds == IF Focus = "C20" THEN {"T0", "T1", "T2", "T3", "TB", "X", "P", "UP", "Q", "Y", "D", "MP", "S1", "V"}
         ELSE IF Focus = "C21" THEN {"S1", "S2", "DS", "V", "W", "DV", "T1", "P", "D"} ELSE Objects
Put(d, t, m) == IF m.c = "obj" THEN /\ heap' = Append(heap, m.o) /\ regs' = [regs EXCEPT ![d] = Ref(t, Len(heap) + 1)]
                ELSE UNCHANGED <<heap, regs>>
MakeA(d) ==
    \E t \in R(Kinds) :
      LET r == Rt(Pool, t) IN
      IF r.k \in Ordered
      THEN \E vs \in {[i \in 1..Len(r.o) |-> Arg(r.o[i].t)]}, p \in R(0..Len(r.o)), w \in R(1..12), nm \in R({"a", "b", "zz", "self"}) :
           LET pos == IF r.k = "tuple" THEN vs ELSE SubSeq(vs, 1, p)
               kw == IF r.k = "tuple" THEN <<>> ELSE [i \in 1..(Len(vs) - p) |-> [n |-> r.o[p + i].n, v |-> vs[p + i]]]
               pos2 == IF w = 1 /\ pos # <<>> THEN Front(pos) ELSE IF w = 2 THEN Append(pos, RandomElement(Vals)) ELSE pos
               kw2 == IF w = 3 /\ kw # <<>> THEN Front(kw) ELSE IF w = 4 /\ kw # <<>> /\ nm \notin {kw[i].n : i \in 1..Len(kw)} THEN [kw EXCEPT ![1].n = nm] ELSE kw
           IN  /\ Put(d, t, Make(Pool, t, pos2, kw2))
               /\ Log([a |-> "make", t |-> t, args |-> [i \in 1..Len(pos2) |-> Des(pos2[i])], kw |-> [i \in 1..Len(kw2) |-> [n |-> kw2[i].n, v |-> Des(kw2[i].v)]], dst |-> d])
      ELSE IF r.k = "sum"
      THEN \E T \in R(FieldTypes(r)) : \E v \in {Arg(T)}, w \in R(1..15) :
           LET vs == IF w = 1 THEN <<v, v>> ELSE IF w = 2 THEN <<>> ELSE <<v>>
           IN  Put(d, t, Make(Pool, t, vs, <<>>)) /\ Log([a |-> "make", t |-> t, args |-> [i \in 1..Len(vs) |-> Des(vs[i])], kw |-> <<>>, dst |-> d])
      ELSE \E f \in R(r.u), g \in R(r.u), w \in R(1..15) : \E v \in {Arg(f.t)}, u \in {Arg(g.t)} :
           LET kw == IF w = 1 /\ f.n # g.n THEN <<[n |-> f.n, v |-> v], [n |-> g.n, v |-> u]>> ELSE IF w = 2 THEN <<>> ELSE IF w = 3 THEN <<[n |-> "zz", v |-> v]>> ELSE <<[n |-> f.n, v |-> v]>>
               vs == IF w = 4 THEN <<v>> ELSE <<>>
           IN  /\ Put(d, t, Make(Pool, t, vs, kw))
               /\ Log([a |-> "make", t |-> t, args |-> [i \in 1..Len(vs) |-> Des(vs[i])], kw |-> [i \in 1..Len(kw) |-> [n |-> kw[i].n, v |-> Des(kw[i].v)]], dst |-> d])
Upd(i, m) == /\ heap' = IF m.c = "obj" THEN [heap EXCEPT ![regs[i].s] = m.o] ELSE heap
             /\ UNCHANGED regs
SetA(i) ==
    LET b == heap[regs[i].s]
        r == Rt(Pool, b.t)
    IN  CASE r.k \in Ordered ->
               (\E q \in R(0..Len(r.o)), w \in R(1..8) :
                 \E v \in {IF q = Len(r.o) THEN RandomElement(Vals) ELSE Arg(r.o[q + 1].t)} :
                   LET j == IF w <= 3 THEN q - Len(r.o) - (IF q = Len(r.o) THEN 1 ELSE 0) ELSE q
                   IN  IF w \in 3..5 /\ r.k # "tuple" /\ q < Len(r.o)
                       THEN Upd(i, SetName(Pool, b, r.o[q + 1].n, v)) /\ Log([a |-> "setname", x |-> i, n |-> r.o[q + 1].n, v |-> Des(v)])
                       ELSE Upd(i, SetItem(Pool, b, IF j < 0 - Len(r.o) \/ j >= 0 THEN j ELSE j, v)) /\ Log([a |-> "setitem", x |-> i, i |-> j, v |-> Des(v)]))
          [] r.k = "tu" -> (\E f \in R(r.u) : \E v \in {Arg(f.t)} : Upd(i, SetName(Pool, b, f.n, v)) /\ Log([a |-> "setname", x |-> i, n |-> f.n, v |-> Des(v)]))
          [] r.k = "sum" -> (\E T \in R({k \in DOMAIN Pool : Pool[k] \in FieldTypes(r) \/ RandomElement(1..20) = 1}) : \E v \in {Arg(Pool[T])} :
                               Upd(i, SetAlt(Pool, b, T, v)) /\ Log([a |-> "setalt", x |-> i, T |-> T, v |-> Des(v)]))
Look(w, i) == UNCHANGED <<regs, heap>> /\ Log([a |-> w, x |-> i])
Cmp(i) == \E j \in R({k \in Used : Sub(Pool[regs[k].t], Pool[regs[i].t]) \/ RandomElement(1..6) = 1} \cup {i}) :
            UNCHANGED <<regs, heap>> /\ Log([a |-> "cmp", x |-> i, y |-> j])
Rebuild(d, i) == /\ heap' = Append(heap, heap[regs[i].s]) /\ regs' = [regs EXCEPT ![d] = Ref(regs[i].t, Len(heap) + 1)]
                 /\ \E w \in R({"rebuild", "copy"}) : Log([a |-> w, x |-> i, dst |-> d])
\* a register refers to what a field refers to
Take(d, i) ==
    LET b == heap[regs[i].s]
        S == {q \in 1..Len(b.o) : b.o[q].k = "ref"}
    IN  IF S = {} THEN Look("view", i) ELSE \E q \in R(S) : regs' = [regs EXCEPT ![d] = b.o[q]] /\ UNCHANGED heap /\ Log([a |-> "take", x |-> i, i |-> q - 1, dst |-> d])
Wrong(i) == Look("wrong", i)
Step ==
    \E d \in R(1..NR), w \in R(1..20) :
      IF Cardinality(Used) < 3 \/ w <= 5 THEN MakeA(d)
      ELSE \E i \in R(Used) :
           CASE w \in 6..10 -> SetA(i) [] w \in 11..12 -> Cmp(i) [] w \in 13..14 -> Look("view", i) [] w = 15 -> Rebuild(d, i) [] w = 16 -> Look("rebuildx", i)
             [] w = 17 -> Take(d, i) [] w = 18 -> Wrong(i) [] w = 19 -> Look("visit", i) [] w = 20 -> (IF Focus = "C27" THEN Look("visit", i) ELSE Look("infer", i))
Emit == /\ Len(prog) = MaxLen /\ TLCSet(1, Append(TLCGet(1), prog))
        /\ prog' = Append(prog, [a |-> "end"]) /\ UNCHANGED <<regs, heap>>
Init == TLCSet(1, <<>>) /\ regs = [i \in 1..NR |-> NoV] /\ heap = <<>> /\ prog = <<>>
Next == (Len(prog) < MaxLen /\ Step) \/ Emit
Spec == Init /\ [][Next]_vars
Inv == /\ \A i \in 1..Len(heap) : WellTyped(Pool, heap[i])
       /\ \A i \in Used : regs[i].s <= Len(heap) /\ heap[regs[i].s].t = regs[i].t
       /\ \A i, j \in Used : Comparable(Pool, heap, regs[i], regs[j]) => (Eq(Pool, heap, regs[i], regs[j]) <=> Eq(Pool, heap, regs[j], regs[i]))
       /\ \A i \in Used : Eq(Pool, heap, regs[i], regs[i])
       \* rebuilding from the dictionary gives the object again
       /\ \A i \in Used : LET b == heap[regs[i].s]
                              m == FromValues(Pool, b.t, SetToSeq(Dict(Pool, b, Const("NoneType", "None"))))
                          IN  m.c = "obj" /\ m.o = b
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
