------------------------------- MODULE UFTrace -------------------------------
(***************************************************************************)
(* Symbolic floating point calls recorded from the real library.  The state *)
(* is the table of uninterpreted functions met so far: a function symbol    *)
(* per (type, operation, size), never shared; and the term of each          *)
(* application, a function of the symbol and the operand terms, in order.   *)
(* Terms are the solver library's hash consed nodes, so equality of terms   *)
(* is equality of their identities.                                         *)
(***************************************************************************)
EXTENDS TraceLib, Functions
VARIABLES funs, apps, regs
vars == <<l, bad, funs, apps, regs>>
Keep == UNCHANGED <<funs, apps>>

\* width of a format
W(f) == 1 + f.e + f.m
Preds == {"eq", "ne", "lt", "leq", "gt", "geq", "is_normal", "is_subnormal", "is_zero", "is_infinite", "is_NaN", "is_negative", "is_positive"}
Exc(r, c) == r.k = "exc" /\ r.c = c
Key(e) == <<e.f.id, IF e.o = "ne" THEN "eq" ELSE e.o, IF HasF(e, "n") THEN e.n ELSE 0>>
\* the type of the result
RT(e) == IF HasF(e, "n") THEN [k |-> "bv", w |-> e.n]
         ELSE IF e.o \in Preds THEN [k |-> "bit", w |-> 0] ELSE [k |-> "fp", w |-> W(e.f)]
App(e) == <<e.r.fn, e.r.args>>
Set(d, v) == regs' = (d :> v) @@ regs
Post(e) == IF HasF(e, "post") THEN Need("fp.changed", \A i \in 1..Len(e.post) : LET q == e.post[i] IN q.i \in DOMAIN regs' /\ regs'[q.i] = q.t, [k |-> "values keep their terms"]) ELSE <<>>

Reset == /\ More /\ E.op = "reset" /\ regs' = <<>> /\ Keep /\ UNCHANGED bad /\ Advance
Make ==
    /\ More /\ E.op \in {"var", "named", "const"}
    /\ LET e == E IN
       /\ bad' = bad \o Need("fp." \o e.op, e.r.k = "fp" /\ e.r.t = e.f.id /\ e.r.w = W(e.f) /\ e.r.fn = ""
                               /\ (IF e.op = "const" THEN e.r.sort = "const" /\ e.r.b = e.b ELSE e.r.sort = "var"),
                             [k |-> "fp", t |-> e.f.id, w |-> W(e.f), how |-> e.op])
       /\ IF e.r.k = "fp" THEN Set(e.dst, e.r.id) ELSE UNCHANGED regs
    /\ Keep /\ Advance
Apply ==
    /\ More /\ E.op = "app"
    /\ LET e == E
           k == Key(e)
           rt == RT(e)
           ids == [i \in 1..Len(e.x) |-> regs[e.x[i]]]
           isapp == e.r.k = rt.k /\ e.r.fn # ""
           canary == HasF(e, "canary")
       IN /\ IF HasF(e, "dst") /\ e.r.k = "fp" THEN Set(e.dst, e.r.id) ELSE UNCHANGED regs
          /\ bad' = bad \o (
               IF ~isapp THEN Need("uf." \o e.o, FALSE, [k |-> "an application of the operation's function", r |-> rt])
               ELSE Need("uf.result", e.r.w = rt.w /\ (rt.k = "fp" => e.r.t = e.f.id) /\ e.r.neg = (IF e.o = "ne" THEN 1 ELSE 0), [r |-> rt, neg |-> e.o = "ne"])
                    \o Need("uf.operands", e.r.args = ids, [k |-> "operands in order", x |-> ids])
                    \o (IF k \in DOMAIN funs THEN Need("uf.same", funs[k] = e.r.fn, [k |-> "always the same function", fn |-> funs[k]])
                        ELSE Need("uf.distinct", e.r.fn \notin Range(funs), [k |-> "a function of its own", taken |-> {q \in DOMAIN funs : funs[q] = e.r.fn}]))
                    \o (IF App(e) \in DOMAIN apps THEN Need("uf.congruence", apps[App(e)] = e.r.id, [k |-> "equal operands, equal results", id |-> apps[App(e)]])
                        ELSE <<>>)) \o Post(e)
          /\ funs' = IF isapp /\ k \notin DOMAIN funs /\ ~canary THEN (k :> e.r.fn) @@ funs ELSE funs
          /\ apps' = IF isapp /\ App(e) \notin DOMAIN apps /\ ~canary THEN (App(e) :> e.r.id) @@ apps ELSE apps
    /\ Advance
\* bit patterns, copies: the same term
Same ==
    /\ More /\ E.op \in {"asbv", "frombv", "copy"} /\ Keep
    /\ LET e == E
           t == regs[e.x[1]]
       IN /\ bad' = bad \o (IF e.op = "frombv" /\ e.w # W(e.f) THEN Need("fp.frombv", Exc(e.r, "TypeError"), [k |-> "exc", c |-> "TypeError"])
                            ELSE Need("fp." \o e.op, e.r.k = (IF e.op = "asbv" THEN "bv" ELSE "fp") /\ e.r.id = t /\ e.r.w = W(e.f)
                                              /\ (e.op # "asbv" => e.r.t = e.f.id), [k |-> "the same term", id |-> t, w |-> W(e.f)]))
          /\ IF HasF(e, "dst") /\ e.r.k = "fp" THEN Set(e.dst, e.r.id) ELSE UNCHANGED regs
    /\ Advance
\* a term the library did not make through a floating point operation
Foreign ==
    /\ More /\ E.op = "foreign" /\ Keep
    /\ bad' = bad \o Need("fp.frombv", E.r.k = "fp" /\ E.r.id = E.id /\ E.r.t = E.f.id /\ E.r.w = W(E.f), [k |-> "the same term", id |-> E.id])
    /\ IF E.r.k = "fp" THEN Set(E.dst, E.r.id) ELSE UNCHANGED regs
    /\ Advance
Refused ==
    /\ More /\ E.op = "refused" /\ Keep /\ UNCHANGED regs
    /\ bad' = bad \o Need("fp.refused", Exc(E.r, "TypeError"), [k |-> "exc", c |-> "TypeError"])
    /\ Advance
Init == TraceInit /\ funs = <<>> /\ apps = <<>> /\ regs = <<>>
Done == TraceDone /\ UNCHANGED <<funs, apps, regs>>
Next == Reset \/ Make \/ Apply \/ Same \/ Foreign \/ Refused \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
