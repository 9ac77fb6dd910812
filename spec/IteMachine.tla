------------------------------ MODULE IteMachine ------------------------------
(***************************************************************************)
(* Register machine over vectors of all types (including those that depend  *)
(* on a selection) and bits: programs of selections and operations.         *)
(* TLC checks on every state that a polymorphic value is typed by its       *)
(* branches, and emits the programs for replay on the real library.         *)
(***************************************************************************)
EXTENDS Ite, Json, IOUtils
CONSTANTS NV, NB, Len_, MaxW, Be, Mode
VARIABLES regs, prog
vars == <<regs, prog>>
Types == {"BV", "NV", "UV", "SV", "MB", "MU", "MS"}
Vec == 1..NV
Bits == (NV + 1)..(NV + NB)
R(S) == IF Mode = "enum" THEN S ELSE IF S = {} THEN {} ELSE {RandomElement(S)}
Reg(i) == [k |-> "reg", i |-> i]
LitInt(n) == [k |-> "int", s |-> IF n < 0 THEN 1 ELSE 0, b |-> ZOfNat(IF n < 0 THEN -n ELSE n).b]
Do(e) == /\ regs' = (e.d :> IExpect(regs, e, Be)) @@ regs
         /\ prog' = Append(prog, e)
Directed == {">>", "//", "%", "<", "<=", ">", ">="}
CmpOps == {"<", "<=", ">", ">=", "==", "!="}
Ops == Directed \cup {"+", "-", "*", "&", "|", "^", "<<", "==", "!="}

Load ==
    \/ /\ Len(prog) < NV
       /\ \E w \in IF Len(prog) = 0 THEN R(1..MaxW \div 2) ELSE {regs[1].w} : \E t \in R(Types) : \E b \in R([1..w -> {0, 1}]) :
             Do([op |-> "load", x |-> PVal(Be, t, b), d |-> Len(prog) + 1])
    \/ /\ Len(prog) >= NV /\ Len(prog) < NV + NB
       /\ \E p \in R({TRUE, FALSE}) : Do([op |-> "load", x |-> BitVal(Be, p), d |-> Len(prog) + 1])
Peers(v) == {i \in Vec : regs[i].w = v.w}
Step ==
    \E kind \in R(1..16), xx \in R(Vec), dd \in R(Vec), dbit \in R(Bits), zz \in R(Bits) :
    \E x \in {xx}, d \in {dd}, db \in {dbit}, z \in {zz} :
    LET v == regs[x] IN
      CASE kind <= 5 -> \E y \in R(Peers(v)) : Do([op |-> "ite", z |-> Reg(z), x |-> Reg(x), y |-> Reg(y), d |-> d])
        [] kind = 6 -> \E y \in R(Peers(v)), c \in R(Vec) : Do([op |-> "ite", z |-> Reg(c), x |-> Reg(x), y |-> Reg(y), d |-> d])
        [] kind \in {7, 8, 9, 10} ->
             \E y \in R(Peers(v)), o \in R(IF kind < 10 THEN Directed ELSE Ops) :
                Do([op |-> "bin", o |-> o, x |-> Reg(x), y |-> Reg(y), d |-> IF o \in CmpOps THEN db ELSE d])
        [] kind = 11 ->
             \E n \in R(-3..9), o \in R(Ops), left \in R({0, 1}) :
                Do([op |-> "bin", o |-> o, x |-> IF left = 1 THEN LitInt(n) ELSE Reg(x), y |-> IF left = 1 THEN Reg(x) ELSE LitInt(n),
                    d |-> IF o \in CmpOps THEN db ELSE d])
        [] kind = 12 ->
             \E o \in R({"~", "-"}) : Do([op |-> "un", o |-> o, x |-> Reg(x), d |-> d])
        [] kind = 13 -> \E n \in R(0..2), o \in R({"ext", "sext", "zext"}) :
                Do([op |-> "ext", o |-> o, n |-> IF v.w + n <= MaxW THEN n ELSE 0, x |-> Reg(x), d |-> d])
        [] kind = 14 -> \E lo \in R(0..(v.w - 1)) : \E hi \in R((lo + 1)..v.w) :
                Do([op |-> "slice", x |-> Reg(x), d |-> d, sl |-> [hl |-> 1, lo |-> lo, hh |-> 1, hi |-> hi, hs |-> 0, step |-> 0]])
        [] kind = 15 -> \E i \in R((-v.w)..(v.w - 1)), y \in R(Bits) : \E g \in R({0, 1}) :
                IF g = 1 THEN Do([op |-> "get", i |-> i, x |-> Reg(x), d |-> db])
                ELSE Do([op |-> "ite", z |-> Reg(z), x |-> Reg(y), y |-> Reg(db), d |-> db])
        [] kind = 16 -> IF 2 * v.w <= MaxW THEN Do([op |-> "double", x |-> Reg(x), d |-> d])
                        ELSE \E m \in R({"bvult", "bvslt", "bvashr", "bvlshr", "bvsdiv", "bvudiv"}), y \in R(Peers(v)) :
                               Do([op |-> "meth", o |-> m, x |-> Reg(x), y |-> Reg(y), d |-> IF m \in {"bvult", "bvslt"} THEN db ELSE d])
\* exhaustively: one selection, then every operator on its result
EnumLoad ==
    /\ Len(prog) < 4
    /\ CASE Len(prog) < 3 -> \E t \in {"BV", "UV", "SV", "MS"} : \E b \in IF Len(prog) = 2 THEN {<<1, 0>>} ELSE {<<1, 1>>, <<0, 1>>} :
                             Do([op |-> "load", x |-> PVal(Be, t, b), d |-> Len(prog) + 1])
         [] OTHER -> \E p \in {TRUE, FALSE} : Do([op |-> "load", x |-> BitVal(Be, p), d |-> 5])
EnumStep ==
    \/ Len(prog) = 4 /\ Do([op |-> "ite", z |-> Reg(5), x |-> Reg(1), y |-> Reg(2), d |-> 4])
    \/ /\ Len(prog) = 5
       /\ \/ \E o \in Ops : \/ Do([op |-> "bin", o |-> o, x |-> Reg(4), y |-> Reg(3), d |-> IF o \in CmpOps THEN 6 ELSE 2])
                            \/ Do([op |-> "bin", o |-> o, x |-> Reg(3), y |-> Reg(4), d |-> IF o \in CmpOps THEN 6 ELSE 2])
          \/ /\ regs[3].t = "BV"
             /\ \/ \E m \in {"ext", "zext", "sext"} : Do([op |-> "ext", o |-> m, n |-> 1, x |-> Reg(4), d |-> 2])
                \/ \E m \in {"~", "-"} : Do([op |-> "un", o |-> m, x |-> Reg(4), d |-> 2])
                \/ Do([op |-> "double", x |-> Reg(4), d |-> 2])
                \/ \E o \in Ops : Do([op |-> "bin", o |-> o, x |-> LitInt(1), y |-> Reg(4), d |-> IF o \in CmpOps THEN 6 ELSE 2])
                \/ \E o \in Ops : Do([op |-> "bin", o |-> o, y |-> LitInt(1), x |-> Reg(4), d |-> IF o \in CmpOps THEN 6 ELSE 2])
Emit ==
    /\ Len(prog) = Len_
    /\ TLCSet(1, Append(TLCGet(1), prog))
    /\ prog' = Append(prog, [op |-> "end"]) /\ UNCHANGED regs
Init == TLCSet(1, <<>>) /\ regs = <<>> /\ prog = <<>>
Next == \/ Mode = "sim" /\ Len(prog) < NV + NB /\ Load
        \/ Mode = "sim" /\ Len(prog) >= NV + NB /\ Len(prog) < Len_ /\ Step
        \/ Mode = "enum" /\ (EnumLoad \/ EnumStep)
        \/ Emit
Spec == Init /\ [][Next]_vars

WellTyped == \A i \in DOMAIN regs :
    LET v == regs[i] IN
    v.k = "bv" => /\ Len(v.b) = v.w /\ "BV" \in v.sup
                  /\ v.sup \subseteq Sups(v.t)        \* it behaves like a subtype of all of them
                  /\ (v.ty # "poly" => v.t = v.ty /\ v.sup = Sups(v.ty))
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
