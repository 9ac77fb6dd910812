------------------------------ MODULE UFMachine ------------------------------
(***************************************************************************)
(* Histories over symbolic floating point values.  A register holds a term: *)
(* its type, the operation applied and the registers' terms it was applied  *)
(* to.  That an operation is a function of its type, name, size and operand *)
(* terms, and of nothing else, is what the state says; UFTrace holds the    *)
(* library to it.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NT, NR, MaxLen
VARIABLES regs, prog
vars == <<regs, prog>>
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Ops2 == {"add", "sub", "mul", "div", "rem", "min", "max"}
Ops1 == {"sqrt", "round_to_integral", "abs", "neg"}
Cmps == {"eq", "ne", "lt", "leq", "gt", "geq"}
Preds == {"is_normal", "is_subnormal", "is_zero", "is_infinite", "is_NaN", "is_negative", "is_positive"}
Used == {i \in 1..NR : regs[i] # 0}
Log(e) == prog' = Append(prog, e)
Put(d, t) == regs' = [regs EXCEPT ![d] = t]
Step ==
    \E w \in R(1..24), d \in R(1..NR), t \in R(1..NT) :
      IF Used = {} \/ w <= 3 THEN Put(d, t) /\ \E h \in R({"var", "named", "const"}) : Log([a |-> h, dst |-> d, t |-> t])
      ELSE \E i \in R(Used) : \E j \in R({q \in Used : regs[q] = regs[i]}), k \in R({q \in Used : regs[q] = regs[i]}) :
             CASE w \in 4..9 -> \E o \in R(Ops2) : Put(d, regs[i]) /\ Log([a |-> "op", o |-> o, x |-> <<i, j>>, dst |-> d])
               [] w = 10 -> Put(d, regs[i]) /\ Log([a |-> "op", o |-> "fma", x |-> <<i, j, k>>, dst |-> d])
               [] w \in 11..13 -> \E o \in R(Ops1) : Put(d, regs[i]) /\ Log([a |-> "op", o |-> o, x |-> <<i>>, dst |-> d])
               [] w \in 14..16 -> \E o \in R(Cmps) : UNCHANGED regs /\ Log([a |-> "op", o |-> o, x |-> <<i, j>>])
               [] w = 17 -> \E o \in R(Preds) : UNCHANGED regs /\ Log([a |-> "op", o |-> o, x |-> <<i>>])
               [] w \in 18..19 -> \E o \in R({"to_ubv", "to_sbv"}), n \in R({1, 3, 4, 8, 16, 33}) : UNCHANGED regs /\ Log([a |-> "conv", o |-> o, n |-> n, x |-> <<i>>])
               [] w = 20 -> Put(d, t) /\ Log([a |-> "reint", x |-> <<i>>, t |-> t, dst |-> d])     \* refused between sizes
               [] w = 21 -> Put(d, regs[i]) /\ Log([a |-> "copy", x |-> <<i>>, dst |-> d])
               [] w = 22 -> UNCHANGED regs /\ Log([a |-> "bad", x |-> <<i>>])
               [] w = 23 -> Put(d, regs[i]) /\ Log([a |-> "arith", o |-> "add", x |-> <<i, j>>, dst |-> d])  \* through a vector operation
               [] w = 24 -> regs' = [q \in 1..NR |-> IF regs[q] = regs[i] THEN 0 ELSE regs[q]] /\ Log([a |-> "drop", t |-> regs[i]])
Emit == /\ Len(prog) = MaxLen /\ TLCSet(1, Append(TLCGet(1), prog))
        /\ prog' = Append(prog, [a |-> "end"]) /\ UNCHANGED regs
Init == TLCSet(1, <<>>) /\ regs = [i \in 1..NR |-> 0] /\ prog = <<>>
Next == (Len(prog) < MaxLen /\ Step) \/ Emit
Spec == Init /\ [][Next]_vars
Typed == \A i \in 1..NR : regs[i] \in 0..NT
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
