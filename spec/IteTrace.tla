------------------------------- MODULE IteTrace -------------------------------
(***************************************************************************)
(* Recorded programs of selections and operations (registers as in          *)
(* IteMachine), and single selections over tuples, protocol objects and     *)
(* branches that cannot be reconciled.                                      *)
(***************************************************************************)
EXTENDS Ite, TraceLib
VARIABLES regs
vars == <<l, bad, regs>>

SetOf(x) == IF x.k = "bv" /\ "ty" \notin DOMAIN x THEN x @@ [ty |-> x.t, sup |-> Sups(x.t)] ELSE x
Reset == /\ More /\ E.op = "reset" /\ regs' = <<>> /\ UNCHANGED bad /\ Advance
Fix(x) == IF x.k = "bv" THEN [x EXCEPT !.sup = Sups(x.t)] ELSE x
LoadE == /\ More /\ E.op = "load"
         /\ regs' = (E.d :> Fix(E.x)) @@ regs
         /\ bad' = bad \o Need("ite.load", Agrees(E.r, Fix(E.x)), E.x)
         /\ Advance
StepE == /\ More /\ E.op \in {"ite", "bin", "bitop", "meth", "un", "ext", "slice", "get", "double"}
         /\ LET e == E
                w == IExpect(regs, e, e.be)
            IN  /\ bad' = bad \o Need("ite." \o e.op, Agrees(e.r, w), w)
                              \o FlattenSeq([i \in 1..Len(e.post) |->
                                    Need("ite.changed", e.post[i].i = e.d \/ Agrees(e.post[i].r, regs[e.post[i].i]), regs[e.post[i].i])])
                \* go on from what was required
                /\ regs' = (e.d :> w) @@ regs
         /\ Advance
\* single selection: literal branches
RECURSIVE Lit(_)
Lit(x) == CASE x.k = "bv" -> x @@ [ty |-> x.t, sup |-> Sups(x.t)]
            [] x.k = "tup" -> Tup([i \in 1..Len(x.e) |-> Lit(x.e[i])])
            [] x.k = "proto" -> [x EXCEPT !.v = Lit(x.v)]
            [] OTHER -> x
Single == /\ More /\ E.op = "one" /\ UNCHANGED regs
       /\ LET e == E
              x == Lit(e.x)
              y == Lit(e.y)
              w == IF e.z.be = e.be THEN IteVal(Truth(e.z), x, y) ELSE IteCross(Truth(e.z), x, y)
          IN  bad' = bad \o Need("ite.value", Agrees(e.r, w), w)
                         \o Need("ite.branches", Agrees(e.ax, x) /\ Agrees(e.ay, y), [k |-> "tup", e |-> <<x, y>>])
       /\ Advance
Init == TraceInit /\ regs = <<>>
Next == Reset \/ LoadE \/ StepE \/ Single \/ (TraceDone /\ UNCHANGED regs)
Spec == Init /\ [][Next]_vars
=============================================================================
