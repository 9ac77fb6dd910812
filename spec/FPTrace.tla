------------------------------- MODULE FPTrace -------------------------------
(***************************************************************************)
(* Recorded floating point calls.  regs holds the values (format, pattern)  *)
(* the specification has accepted so far; values are never altered later.   *)
(***************************************************************************)
EXTENDS FP, TraceLib
VARIABLES regs
vars == <<l, bad, regs>>

Arg(a) == IF a.k = "reg" THEN regs[a.i] ELSE [f |-> a.f, b |-> a.b]
\* exact values of literals
Src(s) == CASE s.k = "rat" -> IF s.n = <<>> THEN RZero(2) ELSE RNum(s.s, ExQ(Dy(FromBits(s.n), 0), Dy(FromBits(s.d), 0)))
            [] s.k = "zero" -> RZero(s.s)
            [] s.k = "inf" -> RInf(s.s)
            [] s.k = "nan" -> RNan
IsFp(r, f) == r.k = "fp" /\ r.f = f
Exc(r, cs) == r.k = "exc" /\ r.c \in cs
Want(R) == IF R.k = "num" THEN [k |-> "the correct rounding of the exact result", s |-> R.s] ELSE R
\* r is the rounding of R; the mode RNA is implemented as rounding away from zero
\* (RA: the exact result with integers rounded that way)
Rounded(c, f, R, RA, r) ==
    IF IsFp(r, f) /\ Fits(f, f.mode, R, r.b) THEN <<>>
    ELSE IF f.mode = "RNA" /\ IsFp(r, f) /\ Fits(f, "RAZ", RA, r.b) THEN Known("rna-rounds-away", Want(R))
    ELSE <<[l |-> l, v |-> "bad", c |-> c, exp |-> Want(R)]>>
Args == [i \in 1..Len(E.a) |-> Arg(E.a[i])]
F1 == Args[1].f
OneFormat == \A i \in 1..Len(E.a) : Args[i].f = F1
V(i) == IF i <= Len(E.a) THEN Val(Args[i].f, Args[i].b) ELSE RNan
Store(r) == regs' = IF HasF(E, "dst") /\ r.k = "fp" THEN (E.dst :> [f |-> r.f, b |-> r.b]) @@ regs ELSE regs

Reset == More /\ E.op = "reset" /\ regs' = <<>> /\ UNCHANGED bad /\ Advance
Arith ==
    /\ More /\ E.op = "arith"
    /\ bad' = bad \o (IF OneFormat THEN Rounded("fp.arith", F1, Exact(E.o, F1.mode, V(1), V(2), V(3)), Exact(E.o, IF F1.mode = "RNA" THEN "RAZ" ELSE F1.mode, V(1), V(2), V(3)), E.r)
                      ELSE Need("fp.mixed", Exc(E.r, {"TypeError"}), [k |-> "exc", c |-> "TypeError"]))
    /\ Store(E.r) /\ Advance
\* construction from a number, a string or a value of any format
Construct ==
    /\ More /\ E.op = "construct"
    /\ LET R == IF E.src.k \in {"reg", "fp"} THEN RVal(Val(Arg(E.src).f, Arg(E.src).b)) ELSE Src(E.src)
       IN  bad' = bad \o Rounded("fp.construct", E.f, R, R, E.r)
    /\ Store(E.r) /\ Advance
\* a value with the given pattern
FromBv ==
    /\ More /\ E.op = "frombv"
    /\ bad' = bad \o (IF Len(E.b) # 1 + E.f.e + E.f.m THEN Need("fp.size", Exc(E.r, {"TypeError"}), [k |-> "exc", c |-> "TypeError"])
                      ELSE Need("fp.reinterpret", IsFp(E.r, E.f) /\ Fits(E.f, "RNE", RVal(Val(E.f, E.b)), E.r.b), [k |-> "fp", b |-> E.b])
                           \* a pattern the format does not keep is flushed with a warning
                           \o (IF HasF(E, "warn") THEN Need("fp.warning", (E.warn = 0) = WellFormed(E.f, E.b), [k |-> "a warning iff the pattern is flushed"]) ELSE <<>>))
    /\ Store(E.r) /\ Advance
Sign ==
    /\ More /\ E.op = "sign"
    /\ LET v == V(1)
           R == CASE v.k = "nan" -> RNan
                  \* the sign of zero is left alone by abs (see DESIGN.md)
                  [] E.o = "abs" -> IF v.k = "zero" THEN RZero(2) ELSE RVal([v EXCEPT !.s = 0])
                  [] E.o = "neg" -> RVal(NegV(v))
       IN  bad' = bad \o Need("fp.sign", IsFp(E.r, F1) /\ Fits(F1, "RNE", R, E.r.b), Want(R))
    /\ Store(E.r) /\ Advance
MinMax ==
    /\ More /\ E.op = "minmax"
    /\ bad' = bad \o (IF OneFormat THEN LET R == MinMaxR(E.o, V(1), V(2)) IN Need("fp.minmax", IsFp(E.r, F1) /\ Fits(F1, "RNE", R, E.r.b), Want(R))
                      ELSE Need("fp.mixed", Exc(E.r, {"TypeError"}), [k |-> "exc", c |-> "TypeError"]))
    /\ Store(E.r) /\ Advance
Compare ==
    /\ More /\ E.op = "cmp" /\ UNCHANGED regs
    /\ bad' = bad \o (IF OneFormat THEN LET w == IF CmpHolds(E.o, CmpV(V(1), V(2))) THEN 1 ELSE 0
                                        IN  Need("fp.compare", E.r.k = "bit" /\ E.r.b = w, [k |-> "bit", b |-> w])
                      ELSE Need("fp.mixed", Exc(E.r, {"TypeError"}), [k |-> "exc", c |-> "TypeError"]))
    /\ Advance
Predicate ==
    /\ More /\ E.op = "pred" /\ UNCHANGED regs
    /\ LET w == IF Pred(F1, E.o, Args[1].b) THEN 1 ELSE 0
       IN  bad' = bad \o Need("fp.class", E.r.k = "bit" /\ E.r.b = w, [k |-> "bit", b |-> w])
    /\ Advance
\* integer conversion: rounded in the type's mode, modulo 2^size
TwosComp(s, n, w) == LET b == ToBits(n, w) IN IF s = 0 THEN b ELSE
    FoldLeft(LAMBDA acc, i : LET t == 1 - b[i] + acc[1] IN <<t \div 2, Append(acc[2], t % 2)>>, <<1, <<>>>>, Ix(w))[2]
ToInteger ==
    /\ More /\ E.op = "toint" /\ UNCHANGED regs
    /\ LET v == V(1)
           t == IF E.o = "to_sbv" THEN "SV" ELSE "BV"
           is(mode) == /\ E.r.k = "bv" /\ E.r.t = t /\ E.r.w = E.size
                       /\ E.r.b = TwosComp(IF v.k = "fin" THEN v.s ELSE 0, IF v.k = "fin" THEN IntOf(Dir(mode, v.s), v.d) ELSE <<>>, E.size)
       IN  bad' = bad \o (IF v.k \in {"nan", "inf"} THEN Need("fp.toint", E.r.k = "exc" /\ E.r.c # "none raised", [k |-> "exc"])
                          ELSE IF is(F1.mode) THEN <<>>
                          ELSE IF F1.mode = "RNA" /\ is("RAZ") THEN Known("rna-rounds-away", [k |-> "bv"])
                          ELSE <<[l |-> l, v |-> "bad", c |-> "fp.toint", exp |-> [k |-> "the integer rounded in the mode of the type"]]>>)
    /\ Advance
\* float(x), for formats within that of Python's floats
ToFloat ==
    /\ More /\ E.op = "float" /\ UNCHANGED regs
    /\ LET v == V(1)
           ok == CASE v.k = "nan" -> E.r.k = "nan"
                   [] v.k = "inf" -> E.r.k = "inf" /\ SameSign(v.s, E.r.s)
                   [] v.k = "zero" -> E.r.k = "zero" /\ E.r.s = v.s
                   [] OTHER -> E.r.k = "rat" /\ E.r.s = v.s /\ CmpD(MulD(v.d, Dy(FromBits(E.r.d), 0)), Dy(FromBits(E.r.n), 0)) = 0
       IN  bad' = bad \o Need("fp.float", ok, [k |-> v.k])
    /\ Advance
Refused ==
    /\ More /\ E.op = "refused" /\ UNCHANGED regs
    /\ bad' = bad \o Need("fp.refused", Exc(E.r, {"TypeError"}), [k |-> "exc", c |-> "TypeError"])
    /\ Advance
\* random numbers are normal, or infinite if allowed; every normal number may come
NormalPatterns(f) == {b \in [1..(1 + f.e + f.m) -> 0..1] : Pred(f, "is_normal", b)}
Random ==
    /\ More /\ E.op = "random" /\ UNCHANGED regs
    /\ LET f == E.f
           got == {E.r.v[i] : i \in 1..Len(E.r.v)}
       IN bad' = bad \o (IF E.r.k # "draws" THEN Need("fp.random", FALSE, [k |-> "draws"])
                         ELSE Need("fp.random", \A b \in got : Len(b) = 1 + f.e + f.m /\ (Pred(f, "is_normal", b) \/ (E.inf = 1 /\ Pred(f, "is_infinite", b))), [k |-> "normal numbers"])
                              \o (IF E.all = 1 THEN Need("fp.random.all", NormalPatterns(f) \subseteq got, [k |-> "never drawn", v |-> NormalPatterns(f) \ got])
                                   ELSE Need("fp.random.spread", Cardinality({SubSeq(b, 1, f.m) : b \in got}) > 20, [k |-> "many significands"])))
    /\ Advance
Invalid ==
    /\ More /\ E.op = "invalid" /\ UNCHANGED regs
    /\ bad' = bad \o Need("fp.invalid", E.r.k = "exc" /\ E.r.c \in Range(E.want), [k |-> "exc", c |-> E.want])
    /\ Advance
\* no value has changed
Again ==
    /\ More /\ E.op = "again" /\ UNCHANGED regs
    /\ bad' = bad \o FlattenSeq([i \in 1..Len(E.post) |->
                LET p == E.post[i] IN Need("fp.history", p.r.k = "fp" /\ [f |-> p.r.f, b |-> p.r.b] = regs[p.i], [k |-> "fp", f |-> regs[p.i].f, b |-> regs[p.i].b])])
    /\ Advance
Init == TraceInit /\ regs = <<>>
Next == Reset \/ Arith \/ Construct \/ FromBv \/ Sign \/ MinMax \/ Compare \/ Predicate \/ ToInteger \/ ToFloat \/ Random \/ Invalid \/ Refused \/ Again
        \/ (TraceDone /\ UNCHANGED regs)
Spec == Init /\ [][Next]_vars
=============================================================================
