------------------------------ MODULE NameMachine ------------------------------
(***************************************************************************)
(* Names of symbolic values: which object may get which variable over any   *)
(* history of creating, naming, prefixing, copying, dropping, collecting.   *)
(* Design level: automatic naming picks any name not in use (TLC explores   *)
(* every choice); the invariants say that live values never share one.      *)
(* The same actions, recorded in prog, are the histories replayed on the    *)
(* real library (there the choice is the library's).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Kinds,       \* kinds of symbolic values
          Names,       \* names a program asks for
          Prefixes, AutoNames, PrefixNames,  \* Prefixes -> the names it may produce
          MaxObjs, MaxLen, Mode            \* "design", "enum" or "sim"

DesignPrefixes == [p \in {"p", "q"} |-> IF p = "p" THEN {"p_0", "p_1", "p_2"} ELSE {"q_0"}]

VARIABLES objs,    \* id -> [kind, name, st: "live" | "cycle" | "dead", copy]
          prog, taken
vars == <<objs, prog, taken>>

R(S) == IF Mode = "sim" THEN IF S = {} THEN {} ELSE {RandomElement(S)} ELSE S
Ids == DOMAIN objs
Live == {i \in Ids : objs[i].st = "live"}
\* the library cannot know that a cyclic garbage object is dead
Held == {i \in Ids : objs[i].st # "dead" /\ ~objs[i].copy}
InUse == {objs[i].name : i \in Held}
New == Cardinality(Ids) + 1
Room == Cardinality(Live) < MaxObjs /\ New <= (IF Mode = "design" THEN 4 ELSE 4 * MaxObjs)
Log(e) == prog' = IF Mode = "design" THEN prog ELSE Append(prog, e)
Put(kind, name, copy) == objs' = (New :> [kind |-> kind, name |-> name, st |-> "live", copy |-> copy]) @@ objs

Auto(kind) ==
    /\ Room
    /\ \E n \in (IF Mode = "design" THEN AutoNames \ InUse ELSE {"auto" \o ToString(New)}) : Put(kind, n, FALSE)
    /\ Log([a |-> "auto", kind |-> kind, id |-> New]) /\ UNCHANGED taken
Named(kind, n) ==
    /\ Room
    /\ IF n \in InUse
       THEN UNCHANGED objs           \* ValueError: refused, nothing changes
       ELSE Put(kind, n, FALSE)
    /\ Log([a |-> "name", kind |-> kind, name |-> n, id |-> New]) /\ UNCHANGED taken
Prefixed(kind, p) ==
    /\ Room
    /\ \E n \in (IF Mode = "design" THEN PrefixNames[p] \ InUse ELSE {p \o "#" \o ToString(New)}) : Put(kind, n, FALSE)
    /\ Log([a |-> "prefix", kind |-> kind, name |-> p, id |-> New]) /\ UNCHANGED taken
\* explicitly built from another value: the same variable
Copy(i) ==
    /\ Room /\ i \in Live
    /\ Put(objs[i].kind, objs[i].name, TRUE)
    /\ Log([a |-> "copy", x |-> i, id |-> New]) /\ UNCHANGED taken
Drop(i) ==
    /\ i \in Live
    /\ objs' = [objs EXCEPT ![i].st = "dead"]
    /\ Log([a |-> "drop", x |-> i]) /\ UNCHANGED taken
\* dropped as part of a reference cycle: it stays until it is collected
Cycle(i) ==
    /\ i \in Live
    /\ objs' = [objs EXCEPT ![i].st = "cycle"]
    /\ Log([a |-> "cycle", x |-> i]) /\ UNCHANGED taken
Collect ==
    /\ \E i \in Ids : objs[i].st = "cycle"
    /\ objs' = [i \in Ids |-> IF objs[i].st = "cycle" THEN [objs[i] EXCEPT !.st = "dead"] ELSE objs[i]]
    /\ Log([a |-> "gc"]) /\ UNCHANGED taken
\* requests that must be refused and must not reserve a name
Forms == {"named constant", "prefixed constant", "name and prefix", "name not a string"}
Refused(kind, form, n) ==
    /\ UNCHANGED <<objs, taken>>
    /\ Mode # "design"
    /\ Log([a |-> "bad", kind |-> kind, form |-> form, name |-> n])

Step ==
    \E w \in R(1..12), kind \in R(Kinds) :
       CASE w <= 2 -> Auto(kind)
         [] w \in {3, 4, 5} -> \E n \in R(Names) : Named(kind, n)
         [] w \in {6, 7} -> \E p \in R(Prefixes) : Prefixed(kind, p)
         [] w = 8 -> \E i \in R(Live) : Copy(i)
         [] w \in {9, 10} -> \E i \in R(Live) : Drop(i)
         [] w = 11 -> \/ \E i \in R(Live) : Cycle(i)
                      \/ Collect
         [] w = 12 -> \E f \in R(Forms), n \in R(Names) : Refused(kind, f, n)
Enum ==
    \/ \E kind \in Kinds : \/ Auto(kind)
                           \/ \E n \in Names : Named(kind, n)
                           \/ \E p \in Prefixes : Prefixed(kind, p)
                           \/ \E f \in Forms, n \in Names : Refused(kind, f, n)
    \/ \E i \in Live : Copy(i) \/ Drop(i) \/ Cycle(i)
    \/ Collect
Emit ==
    /\ Mode # "design" /\ Len(prog) = MaxLen
    /\ TLCSet(1, Append(TLCGet(1), prog))
    /\ prog' = Append(prog, [a |-> "end"]) /\ UNCHANGED <<objs, taken>>
Init == TLCSet(1, <<>>) /\ objs = <<>> /\ prog = <<>> /\ taken = 0
Next == \/ /\ Len(prog) < MaxLen
           /\ IF Mode = "sim" THEN Step ELSE Enum
        \/ Emit
        \/ /\ Mode = "sim" /\ Len(prog) < MaxLen   \* the picked action may not be possible
           /\ taken' = 1 - taken /\ UNCHANGED <<objs, prog>>
Spec == Init /\ [][Next]_vars

\* two live values share a variable only if one was built from the other
Unique == \A i, j \in Live : i # j /\ objs[i].name = objs[j].name =>
             objs[i].copy \/ objs[j].copy
\* in design mode: names handed out are in the requested namespace
Typed == \A i \in Ids : objs[i].st \in {"live", "cycle", "dead"}
Written == Mode = "design" \/ ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
