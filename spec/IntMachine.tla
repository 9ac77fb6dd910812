------------------------------ MODULE IntMachine ------------------------------
(***************************************************************************)
(* Register machine of symbolic integers: unbounded integers in registers   *)
(* 1..NI, vectors in NI+1..NI+NV, comparison results in NI+NV+1..NI+NV+NB.   *)
(* Generates histories for C15 (TLC -simulate) and checks on the way that    *)
(* every register holds a well formed (canonical) value.                     *)
(***************************************************************************)
EXTENDS BVStep, FiniteSets, Json, IOUtils

CONSTANTS NI, NV, NB, Len_
VARIABLES regs, prog, pc
vars == <<regs, prog, pc>>

Ints == 1..NI
Vecs == (NI + 1)..(NI + NV)
Bits == (NI + NV + 1)..(NI + NV + NB)
Reg(i) == [k |-> "reg", i |-> i]
R(S) == {RandomElement(S)}
Be == "s"
Do(e) == /\ regs' = Store(regs, e, IF e.op = "load" THEN e.x ELSE Expect(regs, e, Be))
         /\ prog' = Append(prog, e)

SimLoad ==
    /\ pc < NI
    /\ \E k \in R(0..4), n \in R(0..60), s \in R({0, 1}), w \in R(10..70) :
       \E b \in {Mk(w, LAMBDA i : RandomElement({0, 1}))} :
          Do([op |-> "load", x |-> ZVal(ZInt(s, IF k <= 3 THEN FromNat(n, 7) ELSE b)), d |-> pc + 1])
    /\ pc' = pc + 1
SimLoadVec ==
    /\ pc >= NI /\ pc < NI + NV
    /\ \E w \in R({1, 1, 2, 3, 4, 7, 8, 16, 33, 64}), t \in R({"BV", "UV", "SV"}), p \in R(0..3) :
       \E b \in {Mk(w, LAMBDA i : CASE p = 0 -> 1 [] p = 1 -> IF i = w THEN 1 ELSE 0 [] OTHER -> RandomElement({0, 1}))} :
          Do([op |-> "load", x |-> BVal(Be, t, b), d |-> pc + 1])
    /\ pc' = pc + 1
Big(z) == Len(z.b) > 160
SimCall ==
    /\ pc >= NI + NV /\ pc < Len_
    /\ \E kind \in R(1..14), x \in R(Ints), y \in R(Ints), d \in R(Ints), db \in R(Bits), v \in R(Vecs), n \in R(0..40), s \in R({0, 1}) :
       \E lit \in {IntVal(ZInt(s, FromNat(n, 7)))} :
         CASE kind <= 5 -> \E o \in R({"+", "-", "*", "<", "<=", ">", ">=", "==", "!="}) :
                    Do([op |-> "ibin", o |-> IF o = "*" /\ (Big(regs[x]) \/ Big(regs[y])) THEN "-" ELSE o,
                        x |-> Reg(x), y |-> Reg(y), d |-> IF o \in {"+", "-", "*"} THEN d ELSE db])
           [] kind \in {6, 7} -> \E o \in R({"+", "-", "<", "<=", ">", ">=", "==", "!="}) :
                    Do([op |-> "ibin", o |-> o, x |-> Reg(x), y |-> lit, d |-> IF o \in {"+", "-"} THEN d ELSE db])
           [] kind \in {8, 9} -> \E o \in R({"+", "-", "<", "<=", ">", ">=", "==", "!="}) :
                    Do([op |-> "ibin", o |-> o, x |-> lit, y |-> Reg(x), d |-> IF o \in {"+", "-"} THEN d ELSE db])
           [] kind = 10 -> Do([op |-> "ineg", x |-> Reg(x), d |-> d])
           [] kind = 11 -> IF regs[y].b = <<>> THEN Do([op |-> "ineg", x |-> Reg(y), d |-> d])
                           ELSE Do([op |-> "ibin", o |-> "//", x |-> Reg(x), y |-> Reg(y), d |-> d])
           [] kind = 12 -> IF n = 0 THEN Do([op |-> "ineg", x |-> Reg(y), d |-> d])
                           ELSE Do([op |-> "ibin", o |-> "//", x |-> Reg(x), y |-> lit, d |-> d])
           [] kind = 13 -> Do([op |-> "toint", x |-> Reg(v), d |-> d])
           [] kind = 14 -> \E o \in R({"as_uint", "as_sint"}) : Do([op |-> "iview", o |-> o, x |-> Reg(v), d |-> d])
    /\ pc' = pc + 1
SimEmit ==
    /\ pc = Len_
    /\ TLCSet(1, Append(TLCGet(1), prog))
    /\ pc' = pc + 1 /\ UNCHANGED <<regs, prog>>
Init == TLCSet(1, <<>>) /\ regs = <<>> /\ prog = <<>> /\ pc = 0
Next == SimLoad \/ SimLoadVec \/ SimCall \/ SimEmit
Spec == Init /\ [][Next]_vars

WellFormed ==
    \A i \in DOMAIN regs :
       LET v == regs[i] IN
       CASE i \in Ints -> v.k = "zint" /\ (v.b = <<>> => v.s = 0) /\ (v.b # <<>> => v.b[Len(v.b)] = 1)
         [] i \in Vecs -> v.k = "bv" /\ v.w = Len(v.b)
         [] OTHER -> v.k = "bit"
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
