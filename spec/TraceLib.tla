------------------------------- MODULE TraceLib -------------------------------
(***************************************************************************)
(* Common part of the trace specifications: the recorded events (one JSON   *)
(* object per line), the position l in them, and the clauses found broken   *)
(* so far.  A specification's actions consume events one by one; the trace  *)
(* is a behaviour of the specification iff it is consumed to the end with   *)
(* no clause broken.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

More == l <= Len(Trace)
E == Trace[l]
Advance == l' = l + 1
HasF(e, f) == f \in DOMAIN e

\* the clause c holds iff p; x describes what the specification requires
Need(c, p, x) == IF p THEN <<>> ELSE <<[l |-> l, v |-> "bad", c |-> c, exp |-> x]>>
Known(c, x) == <<[l |-> l, v |-> "known", c |-> c, exp |-> x]>>

TraceInit == l = 1 /\ bad = <<>>
TraceDone ==
    /\ l = Len(Trace) + 1
    /\ ndJsonSerialize(IOEnv.VERDICT, <<[consumed |-> Len(Trace), failures |-> Len(bad)]>> \o bad)
    /\ l' = l + 1 /\ UNCHANGED bad
Accepted == TLCGet("stats").diameter - 2 = Len(Trace)
=============================================================================
