------------------------------ MODULE TypeMachine ------------------------------
(***************************************************************************)
(* Histories of defining classes, indexing them, dropping and collecting    *)
(* types.  TLC checks the lattice on every reachable class table and emits  *)
(* the histories for replay on the real families.                           *)
(***************************************************************************)
EXTENDS TypeTheory, Json, IOUtils
CONSTANTS Roots,      \* the predefined classes: a sequence of base lists
          Keys, MaxClasses, MaxLen, Mode, Forms
VARIABLES cls, held, prog
vars == <<cls, held, prog>>
R(S) == IF Mode = "sim" THEN IF S = {} THEN {} ELSE {RandomElement(S)} ELSE S

Chain == <<<<>>, <<<<1>>>>, <<<<2>>>>>>
Two == <<<<>>, <<<<1>>>>>>
RootSet == 1..Len(Roots)
Log(e) == prog' = IF Mode = "design" THEN prog ELSE Append(prog, e)
New == Len(cls) + 1
Define(bs) ==
    /\ Len(cls) < MaxClasses
    /\ IF Definable(cls, bs)
       THEN cls' = Append(cls, bs) /\ held' = held \cup {<<New>>}
       ELSE UNCHANGED <<cls, held>>
    /\ Log([a |-> "define", bases |-> bs, id |-> New])
Index(c, k) ==
    /\ <<c>> \in held
    /\ held' = IF Open(cls, c) THEN held \cup {<<c, k>>} ELSE held
    /\ Log([a |-> "index", c |-> c, k |-> k])
    /\ UNCHANGED cls
Again(T, k) ==
    /\ T \in held /\ Len(T) = 2
    /\ Log([a |-> "again", t |-> T, k |-> k])
    /\ UNCHANGED <<cls, held>>
BadIndex(T, f) ==
    /\ T \in held
    /\ Mode # "design"
    /\ Log([a |-> "bad", t |-> T, f |-> f])
    /\ UNCHANGED <<cls, held>>
Drop(T) ==
    /\ T \in held /\ ~(Len(T) = 1 /\ T[1] \in RootSet)
    /\ held' = held \ {T}
    /\ Log([a |-> "drop", t |-> T])
    /\ UNCHANGED cls
Collect == Mode # "design" /\ Log([a |-> "gc"]) /\ UNCHANGED <<cls, held>>
BaseLists(S) == {<<t>> : t \in S} \cup {<<p[1], p[2]>> : p \in {q \in S \X S : q[1] # q[2]}}
Enum ==
    \/ \E bs \in BaseLists(held) : Define(bs)
    \/ \E T \in held, k \in Keys : IF Len(T) = 1 THEN Index(T[1], k) ELSE Again(T, k)
    \/ \E T \in held : Drop(T) \/ \E f \in Forms : BadIndex(T, f)
    \/ Collect
Sim ==
    \E w \in R(1..16), t1 \in R(held), t2 \in R(held), k \in R(Keys) :
      CASE w <= 4 -> IF w <= 2 \/ t1 = t2 THEN Define(<<t1>>) ELSE Define(<<t1, t2>>)
        [] w \in 5..10 -> IF Len(t1) = 1 THEN Index(t1[1], k) ELSE Again(t1, k)
        [] w \in {11, 12} -> \E f \in R(Forms) : BadIndex(t1, f)
        [] w \in {13, 14, 15} -> Drop(t1)
        [] w = 16 -> Collect
Emit ==
    /\ Mode # "design" /\ Len(prog) = MaxLen
    /\ TLCSet(1, Append(TLCGet(1), prog))
    /\ prog' = Append(prog, [a |-> "end"]) /\ UNCHANGED <<cls, held>>
Init == TLCSet(1, <<>>) /\ cls = Roots /\ held = {<<i>> : i \in RootSet} /\ prog = <<>>
Next == \/ Len(prog) < MaxLen /\ (IF Mode = "sim" THEN Sim ELSE Enum)
        \/ Emit
        \* the picked action may not be possible
        \/ Mode = "sim" /\ Len(prog) < MaxLen /\ held' = held /\ UNCHANGED <<cls, prog>>
Spec == Init /\ [][Next]_vars

AllTypes == {<<c>> : c \in 1..Len(cls)} \cup {T \in (1..Len(cls)) \X Keys : Open(cls, T[1])}
Lattice ==
    /\ \A T \in AllTypes : Lin(cls, T) # Fail /\ Range(Lin(cls, T)) = Sup(cls, T)
    /\ \A T, U \in AllTypes :
         /\ Len(T) = 2 /\ Len(U) = 2 => (Subtype(cls, T, U) <=> Subtype(cls, <<T[1]>>, <<U[1]>>) /\ T[2] = U[2])
         /\ Len(T) = 2 /\ Len(U) = 1 => (Subtype(cls, T, U) <=> Subtype(cls, <<T[1]>>, U))
         /\ Subtype(cls, T, U) /\ Size(cls, U) # NoSize => Size(cls, T) = Size(cls, U)
Written == Mode = "design" \/ ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
