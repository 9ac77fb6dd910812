---------------------------- MODULE FormulaMachine ----------------------------
(***************************************************************************)
(* Builds formula trees the way a program does: a pool of finished trees,   *)
(* from which new ones are made (trees are shared, as Python objects are).  *)
(* Exhaustive for a small pool (TLC -workers 1), random for larger ones.    *)
(* Checked on the way: De Morgan and currying laws of the meaning.          *)
(***************************************************************************)
EXTENDS Formula, FiniteSets, Json, IOUtils
CONSTANTS NLeaf, NSteps, MaxKids, Sim
VARIABLES prog, pool
vars == <<prog, pool>>

R(S) == IF Sim THEN {RandomElement(S)} ELSE S
Idx == 1..Len(pool)
Leaf(f) == [k |-> "leaf", f |-> f, s |-> "L" \o ToString(f), kids |-> <<>>]
Kids(ix) == [i \in 1..Len(ix) |-> pool[ix[i]]]
Add(k, ix) ==
    /\ prog' = Append(prog, [k |-> k, ix |-> ix])
    /\ pool' = Append(pool, [k |-> k, f |-> 0, s |-> "", kids |-> Kids(ix)])
Init ==
    /\ TLCSet(1, <<>>)
    /\ prog = <<>> /\ pool = [f \in 1..NLeaf |-> Leaf(f)]
Build ==
    /\ Len(prog) < NSteps
    /\ \E k \in R({"and", "or", "imp"}) : \E n \in IF k = "imp" THEN {2} ELSE R(0..MaxKids) :
       \E ix \in IF Sim THEN {[i \in 1..n |-> RandomElement(Idx)]} ELSE [1..n -> Idx] :
         /\ FSize([k |-> k, kids |-> Kids(ix)]) <= 60
         /\ FDepth([k |-> k, kids |-> Kids(ix)]) <= 7
         /\ Add(k, ix)
Emit ==
    /\ Len(prog) = NSteps
    /\ TLCSet(1, Append(TLCGet(1), prog))
    /\ prog' = Append(prog, [k |-> "end", ix |-> <<>>])
    /\ UNCHANGED pool
Next == Build \/ Emit
Spec == Init /\ [][Next]_vars

Not(t) == [k |-> "imp", f |-> 0, s |-> "", kids |-> <<t, [k |-> "or", f |-> 0, s |-> "", kids |-> <<>>]>>]
Laws ==
    \A i \in Idx : LET t == pool[i] IN
      t.k \in {"and", "or"} =>
        \A av \in [1..NLeaf -> BOOLEAN] :
          FEval(Not(t), av) = FEval([t EXCEPT !.k = IF t.k = "and" THEN "or" ELSE "and",
                                              !.kids = [j \in 1..Len(t.kids) |-> Not(t.kids[j])]], av)
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
