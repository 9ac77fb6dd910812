------------------------------- MODULE BVTrace -------------------------------
(***************************************************************************)
(* Trace specification of the bit vector register machine.                 *)
(*                                                                         *)
(* A trace is a sequence of public calls recorded from the real library.   *)
(* Operands are literal values or registers; the specification computes    *)
(* the result each call must have from its own copy of the registers       *)
(* (regs), compares it with the recorded one, and goes on from the         *)
(* recorded value, so that one disagreement does not hide the rest.        *)
(* Every step records the clauses it found broken in `bad'.                *)
(***************************************************************************)
EXTENDS BVStep, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, regs, bad
vars == <<l, regs, bad>>

Fails(e, clause, o, x) == IF Same(o, x) THEN <<>> ELSE <<[l |-> l, v |-> "bad", c |-> clause, exp |-> x]>>
Known(clause, x) == <<[l |-> l, v |-> "known", c |-> clause, exp |-> x]>>
Holds(clause, p) == IF p THEN <<>> ELSE <<[l |-> l, v |-> "bad", c |-> clause, exp |-> [k |-> "pred"]]>>

NoVal == [k |-> "none"]
\* --- actions -----------------------------------------------------------
More == l <= Len(Trace)
E == Trace[l]
Advance == l' = l + 1

StoreAt(e, val) == Store(regs, e, val)
\* registers take the observed value if it has the expected kind and shape
RECURSIVE Shape(_, _)
Shape(o, x) == o.k = x.k /\ CASE x.k = "bv" -> o.t = x.t /\ o.w = x.w /\ Len(o.b) = x.w
                              [] x.k = "bit" -> o.be = x.be
                              [] x.k = "zint" -> TRUE
                              [] x.k = "tup" -> Len(o.e) = Len(x.e) /\ \A i \in 1..Len(x.e) : Shape(o.e[i], x.e[i])
                              [] OTHER -> FALSE
Resync(e, o, x) == IF Shape(o, x) THEN StoreAt(e, o) ELSE StoreAt(e, x)
\* every register operand holds a value (a program is abandoned at its first
\* wrong outcome kind)
Usable(e) == \A f \in DOMAIN e \cap {"x", "y", "z"} :
                e[f].k = "reg" => e[f].i \in DOMAIN regs /\ regs[e[f].i].k \in {"bv", "bit", "zint"}

\* the full projection of the registers, compared with the model
PostFails(e, rs) ==
    IF ~Has(e, "post") THEN <<>>
    ELSE FoldLeft(LAMBDA acc, p :
            IF p.i \in DOMAIN rs /\ ~Same(p.r, rs[p.i])
            THEN Append(acc, [l |-> l, v |-> "bad", c |-> "isolation", exp |-> rs[p.i]]) ELSE acc,
            <<>>, e.post)
PostSync(e, rs) ==
    IF ~Has(e, "post") THEN rs
    ELSE FoldLeft(LAMBDA acc, p : IF p.i \in DOMAIN rs /\ Shape(p.r, rs[p.i]) THEN (p.i :> p.r) @@ acc ELSE acc, rs, e.post)

\* the recorded expectation of the concrete operation differs from the
\* solver backend's: the documented disagreement, or agreement is required
\* a construction that drops bits of a vector, of a sequence or of an object
\* that is not an integer warns, and no other one does
Drops(e) ==
    LET x == Val(regs, e.x)
    IN  CASE x.k = "bv" -> x.w > e.w
          [] x.k = "seq" -> e.be = "c" /\ Len(x.e) > e.w
          [] x.k = "obj" -> e.be = "c" /\ Len(Trim(x.b)) > e.w
          [] OTHER -> FALSE
WarnFails(e) == IF Has(e, "warn") THEN Holds("warning", (e.warn = 1) = Drops(e)) ELSE <<>>

AgreeFails(e, x) ==
    IF ~Has(e, "rc") THEN <<>>
    ELSE LET xc == Expect(regs, e, "c")
         IN  IF ~Same(e.rc, xc) THEN Fails(e, "concrete", e.rc, xc)
             ELSE IF Same(InBe(x, "c"), xc) THEN <<>>
             ELSE Known("signed-division-rounding", xc)

\* pysmt folds integer division through floating point: beyond 2^53 only the
\* leading bits of the quotient are right (listed as a known finding)
FloatDivision(e, o, x) ==
    /\ e.op = "ibin" /\ e.o = "//" /\ o.k = "zint" /\ x.k = "zint"
    /\ Len(Val(regs, e.x).b) > 53 \/ Len(Val(regs, e.y).b) > 53
    /\ LET diff == ZSub(ZOf(o), ZOf(x))
       IN  ZLt([s |-> 0, b |-> Zero(48) \o diff.b], ZAdd([s |-> 0, b |-> x.b], [s |-> 0, b |-> Zero(49) \o <<1>>]))

Call ==
    /\ More /\ E.op \notin {"reset", "set", "random", "hasheq", "load", "nop", "subst"} /\ Usable(E)
    /\ LET e == E
           be == e.be
           x == Expect(regs, e, be)
           rs == Resync(e, e.r, x)
       IN  /\ regs' = PostSync(e, rs)
           /\ bad' = bad \o (IF ~Same(e.r, x) /\ FloatDivision(e, e.r, x) THEN Known("int-division-float", x)
                              ELSE Fails(e, e.op, e.r, x)) \o WarnFails(e) \o AgreeFails(e, x) \o PostFails(e, rs)
    /\ Advance

\* a fresh value enters a register
Load ==
    /\ More /\ E.op = "load"
    /\ LET rs == StoreAt(E, E.x)
       IN  /\ regs' = PostSync(E, rs)
           /\ bad' = bad \o Fails(E, "load", E.r, E.x) \o PostFails(E, rs)
    /\ Advance

\* v[i] = x changes register x (or a fresh vector) and nothing else
SetItemAct ==
    /\ More /\ E.op = "set" /\ Usable(E)
    /\ LET e == E
           v == Val(regs, e.x)
           y == Val(regs, e.y)
           res == SetItem(v, e.i, y)
           nv == [v EXCEPT !.b = res[2]]
           rs == SetRegs(regs, e, e.be)
       IN  /\ bad' = bad \o Fails(e, "set.outcome", e.r, res[1])
                         \o (IF Has(e, "after") THEN Fails(e, "set.value", e.after, nv) ELSE <<>>)
                         \o PostFails(e, rs)
           /\ regs' = PostSync(e, rs)
    /\ Advance

\* random(width) samples: right type and width, whole range reached
RandomAct ==
    /\ More /\ E.op = "random"
    /\ LET e == E
           n == Len(e.samples)
           okOne(o) == o.k = "bv" /\ o.be = "c" /\ o.t = e.t /\ o.w = e.w /\ Len(o.b) = e.w
           ok == \A i \in 1..n : okOne(e.samples[i])
       IN  bad' = bad \o Holds("random.type", ok)
                \o (IF ok /\ e.w <= 4 THEN Holds("random.range", {e.samples[i].b : i \in 1..n} = [1..e.w -> {0, 1}]) ELSE <<>>)
                \o (IF ok THEN Holds("random.bits", \A j \in 1..e.w : {e.samples[i].b[j] : i \in 1..n} = {0, 1}) ELSE <<>>)
    /\ UNCHANGED regs
    /\ Advance

\* equal values of one type hash equally
HashAct ==
    /\ More /\ E.op = "hasheq" /\ Usable(E)
    /\ bad' = bad \o Holds("hash", (Val(regs, E.x) = Val(regs, E.y)) => (E.r.k = "bool" /\ E.r.b = 1))
    /\ UNCHANGED regs
    /\ Advance

(***************************************************************************)
(* Substitution.  The program e.prog was executed over the variables        *)
(* e.vars (registers 1..n at its start, after Load), giving the terms in     *)
(* its registers; then every variable f of e.subs was replaced in the term   *)
(* e.x by the term in register t.  Under the assignment e.a the result has   *)
(* the value the original has when each f has the value of its t.            *)
(***************************************************************************)
SubstAct ==
    /\ More /\ E.op = "subst"
    /\ LET e == E
           env == [i \in 1..Len(e.a) |-> e.a[i]]
           r0 == RunProg(env, e.prog, e.be)
           env2 == FoldLeft(LAMBDA acc, p : [acc EXCEPT ![p.f] = [@ EXCEPT !.b = r0[p.t].b]], env, e.subs)
           r1 == RunProg(env2, e.prog, e.be)
           want == r1[e.x.i]
           keeps == FoldLeft(LAMBDA acc, p : acc \o Fails(e, "subst.changed", p.r, r0[p.i]), <<>>, e.after)
       IN  /\ bad' = bad \o Holds("subst.kind", e.r.k = want.k /\ e.r.be = want.be)
                         \o (IF e.r.k # want.k THEN <<>> ELSE
                             IF e.r.b = want.b THEN <<>> ELSE <<[l |-> l, v |-> "bad", c |-> "subst", exp |-> want]>>)
                         \o keeps
    /\ UNCHANGED regs
    /\ Advance

\* nothing was called on the library (the test program changed objects of its
\* own): every register is as before
Nop ==
    /\ More /\ E.op = "nop"
    /\ bad' = bad \o PostFails(E, regs)
    /\ regs' = PostSync(E, regs)
    /\ Advance

Skip == More /\ E.op \notin {"reset", "load", "nop", "random", "subst"} /\ ~Usable(E) /\ UNCHANGED <<regs, bad>> /\ Advance
Reset == More /\ E.op = "reset" /\ regs' = <<>> /\ UNCHANGED bad /\ Advance

Init == l = 1 /\ regs = <<>> /\ bad = <<>>
Done ==
    /\ l = Len(Trace) + 1
    /\ ndJsonSerialize(IOEnv.VERDICT, <<[consumed |-> Len(Trace), failures |-> Len(bad)]>> \o bad)
    /\ l' = l + 1 /\ UNCHANGED <<regs, bad>>
Next == Call \/ Load \/ SetItemAct \/ RandomAct \/ HashAct \/ Nop \/ SubstAct \/ Skip \/ Reset \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Trace)
=============================================================================
