------------------------------ MODULE NameTrace ------------------------------
(***************************************************************************)
(* Histories of naming recorded from the real library.  The state is what   *)
(* NameMachine has: every object ever made with its variable and whether it *)
(* is live, possibly still held (dropped but not collected) or dead.        *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES objs, declared
vars == <<l, bad, objs, declared>>

Live == {i \in DOMAIN objs : objs[i].st = "live"}
\* variables of live values
Taken == {objs[i].n : i \in Live}
\* names of live values that were made with them, and not only copied from such a value
Primary == {objs[i].n : i \in {j \in Live : ~objs[j].copy}}
Limbo == {objs[i].n : i \in {j \in DOMAIN objs : objs[j].st = "limbo"}}
Var(r) == r.k = "var"
Exc(r, c) == r.k = "exc" /\ r.c = c
Prefix(p, s) == Len(s) > Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* asking for a name like those given automatically warns; nothing else does
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AutoLike(s) == Prefix("V_", s) /\ \A i \in 3..Len(s) : SubSeq(s, i, i) \in Digits
Warned == IF HasF(E, "warn") /\ Var(E.r) /\ E.o # "SMTFPVector"
          THEN Need("name.warning", (E.warn = 1) = (E.op = "name" /\ AutoLike(E.name)), [k |-> "a warning for a name that looks automatic, else none"])
          ELSE <<>>
Post == Warned \o\* the variables of all live values are as they were
    Need("name.changed", \A i \in 1..Len(E.post) : LET q == E.post[i] IN q.id \in DOMAIN objs' /\ objs'[q.id].n = q.n,
         [k |-> "live values keep their variables"])
Put(copy) == IF Var(E.r)
             THEN objs' = (E.id :> [n |-> E.r.n, st |-> "live", copy |-> copy]) @@ objs
             ELSE UNCHANGED objs
Declare == declared' = IF Var(E.r) THEN declared \cup {<<E.r.n, E.sort>>} ELSE declared

Reset == /\ More /\ E.op = "reset" /\ objs' = <<>> /\ declared' = {} /\ UNCHANGED bad /\ Advance
Auto ==
    /\ More /\ E.op = "auto" /\ Put(FALSE) /\ Declare
    /\ bad' = bad \o Need("name.fresh", Var(E.r) /\ E.r.n \notin Taken, [k |-> "a variable no live value has"]) \o Post
    /\ Advance
Prefixed ==
    /\ More /\ E.op = "prefix" /\ Put(FALSE) /\ Declare
    /\ bad' = bad \o Need("name.prefix", Var(E.r) /\ E.r.n \notin Taken /\ Prefix(E.name, E.r.n),
                          [k |-> "a variable no live value has, starting with the prefix"]) \o Post
    /\ Advance
Named ==
    /\ More /\ E.op = "name" /\ Put(FALSE) /\ Declare
    /\ LET e == E
           other == e.fam = "smt" /\ \E d \in declared : d[1] = e.name /\ d[2] # e.sort
           given == Var(e.r) /\ e.r.n = e.name
       IN bad' = bad \o (IF e.name \in Primary THEN Need("name.inuse", Exc(e.r, "ValueError"), [k |-> "exc", c |-> "ValueError"])
                         ELSE IF e.name \in Taken \cup Limbo
                              THEN IF other /\ Exc(e.r, "TypeError") THEN Known("name-reuse-other-sort", [k |-> "var", n |-> e.name])
                                   ELSE Need("name.copyheld", given \/ Exc(e.r, "ValueError"), [k |-> "the name or ValueError"])
                         ELSE IF other /\ Exc(e.r, "TypeError") THEN Known("name-reuse-other-sort", [k |-> "var", n |-> e.name])
                         ELSE Need("name.given", given, [k |-> "var", n |-> e.name])) \o Post
    /\ Advance
Copy ==
    /\ More /\ E.op = "copy" /\ Put(TRUE) /\ UNCHANGED declared
    /\ bad' = bad \o Need("name.copy", Var(E.r) /\ E.r.n = objs[E.x].n, [k |-> "var", n |-> objs[E.x].n]) \o Post
    /\ Advance
Drop ==
    /\ More /\ E.op = "drop"
    /\ objs' = [objs EXCEPT ![E.x].st = IF E.collected THEN "dead" ELSE "limbo"]
    /\ bad' = bad \o Post /\ UNCHANGED declared /\ Advance
Collect ==
    /\ More /\ E.op = "gc"
    /\ objs' = [i \in DOMAIN objs |-> IF objs[i].st = "limbo" THEN [objs[i] EXCEPT !.st = "dead"] ELSE objs[i]]
    /\ bad' = bad \o Post /\ UNCHANGED declared /\ Advance
Refused ==
    /\ More /\ E.op = "bad" /\ UNCHANGED <<objs, declared>>
    /\ LET w == IF E.form = "name and prefix" THEN "ValueError" ELSE "TypeError"
       IN bad' = bad \o Need("name.refused", Exc(E.r, w), [k |-> "exc", c |-> w]) \o Post
    /\ Advance
Init == TraceInit /\ objs = <<>> /\ declared = {}
Done == TraceDone /\ UNCHANGED <<objs, declared>>
Next == Reset \/ Auto \/ Prefixed \/ Named \/ Copy \/ Drop \/ Collect \/ Refused \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
