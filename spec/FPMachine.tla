------------------------------ MODULE FPMachine ------------------------------
(***************************************************************************)
(* Histories over floating point values of several formats: operations of   *)
(* different formats interleaved, failing calls in between, every value     *)
(* looked at again later.  Registers hold the format of their value.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NF, NR, MaxLen, Lits
VARIABLES regs, prog
vars == <<regs, prog>>
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Ops2 == {"add", "sub", "mul", "div", "rem", "min", "max"}
Ops1 == {"sqrt", "rint", "abs", "neg"}
Cmps == {"eq", "ne", "lt", "leq", "gt", "geq"}
Used == {i \in 1..NR : regs[i] # 0}
Log(e) == prog' = Append(prog, e)
New(d, f, how) == regs' = [regs EXCEPT ![d] = f] /\ Log([a |-> "new", dst |-> d, f |-> f, how |-> how])
Op1(d, o, i) == regs' = [regs EXCEPT ![d] = regs[i]] /\ Log([a |-> "op", o |-> o, x |-> <<i>>, dst |-> d])
\* of different formats: refused
Op2(d, o, i, j) == regs' = (IF regs[i] = regs[j] THEN [regs EXCEPT ![d] = regs[i]] ELSE regs) /\ Log([a |-> "op", o |-> o, x |-> <<i, j>>, dst |-> d])
Fma(d, i, j, k) == regs' = (IF regs[i] = regs[j] /\ regs[i] = regs[k] THEN [regs EXCEPT ![d] = regs[i]] ELSE regs)
                   /\ Log([a |-> "op", o |-> "fma", x |-> <<i, j, k>>, dst |-> d])
OpLit(d, o, i, how) == regs' = [regs EXCEPT ![d] = regs[i]] /\ Log([a |-> "oplit", o |-> o, x |-> <<i>>, how |-> how, dst |-> d])
Conv(d, i, f) == regs' = [regs EXCEPT ![d] = f] /\ Log([a |-> "conv", x |-> <<i>>, f |-> f, dst |-> d])
Cmp(o, i, j) == UNCHANGED regs /\ Log([a |-> "cmp", o |-> o, x |-> <<i, j>>])
Look(i, w) == UNCHANGED regs /\ Log([a |-> w, x |-> <<i>>])
Step ==
    \E w \in R(1..20), d \in R(1..NR), f \in R(1..NF), how \in R(Lits) :
      IF Used = {} THEN New(d, f, how)
      ELSE \E i \in R(Used), j0 \in R(Used), k \in R(Used), same \in R({0, 1}) :
        \* mostly operands of one format
        LET peers == {q \in Used : regs[q] = regs[i]}
        IN  \E j1 \in R(peers), k1 \in R(peers) :
              LET j == IF same = 0 /\ w % 2 = 0 THEN j0 ELSE j1
                  kk == IF same = 0 /\ w % 3 = 0 THEN k ELSE k1
              IN  CASE w <= 4 -> New(d, f, how)
                    [] w \in 5..9 -> \E o \in R(Ops2) : Op2(d, o, i, j)
                    [] w = 10 -> Fma(d, i, j, kk)
                    [] w \in 11..12 -> \E o \in R(Ops1) : Op1(d, o, i)
                    [] w \in 13..14 -> \E o \in R(Ops2) : OpLit(d, o, i, how)
                    [] w = 15 -> Conv(d, i, f)
                    [] w = 16 -> \E o \in R(Cmps) : Cmp(o, i, j)
                    [] w = 17 -> Look(i, "pred")
                    [] w = 18 -> Look(i, "toint")
                    [] w = 19 -> Look(i, "bad")
                    [] w = 20 -> Look(i, "all")
Emit == /\ Len(prog) = MaxLen /\ TLCSet(1, Append(TLCGet(1), prog))
        /\ prog' = Append(prog, [a |-> "all", x |-> <<1>>]) /\ UNCHANGED regs
Init == TLCSet(1, <<>>) /\ regs = [i \in 1..NR |-> 0] /\ prog = <<>>
Next == (Len(prog) < MaxLen /\ Step) \/ Emit
Spec == Init /\ [][Next]_vars
Typed == \A i \in 1..NR : regs[i] \in 0..NF
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
