----------------------------- MODULE FormulaTrace -----------------------------
(***************************************************************************)
(* Recorded formula trees: the value of the converted bit under every       *)
(* assignment (e.avs lists, per assignment, the values of the leaves) and   *)
(* the serialised text; and the attempts to build a tree of other things.   *)
(***************************************************************************)
EXTENDS Formula, TraceLib
vars == <<l, bad>>

Tree ==
    /\ More /\ E.op = "tree"
    /\ LET e == E
           want == [i \in 1..Len(e.avs) |-> IF FEval(e.t, [f \in 1..Len(e.avs[i]) |-> e.avs[i][f] = 1]) THEN 1 ELSE 0]
           text == FText(e.t, e.prefix, e.indent)
       IN  bad' = bad \o Need("formula.kind", e.r.k = "formula", [k |-> "formula"])
                      \o (IF e.r.k # "formula" THEN <<>>
                          ELSE Need("formula.value", e.r.vals = want, [k |-> "vals", vals |-> want])
                            \o Need("formula.text", e.r.text = text, [k |-> "text", text |-> text]))
    /\ Advance
Reject ==
    /\ More /\ E.op = "reject"
    /\ bad' = bad \o Need("formula.reject", E.r.k = "exc" /\ E.r.c = "ValueError", [k |-> "exc", c |-> "ValueError"])
    /\ Advance
Init == TraceInit
Next == Tree \/ Reject \/ TraceDone
Spec == Init /\ [][Next]_vars
=============================================================================
