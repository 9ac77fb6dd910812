------------------------------ MODULE BVMachine ------------------------------
(***************************************************************************)
(* The bit vector register machine as a state machine.                     *)
(*                                                                         *)
(* A program holds vectors in registers 1..NV and bits in NV+1..NV+NB and   *)
(* performs public calls on them.  The machine                             *)
(*  - is model checked: every register always holds a well formed value,   *)
(*    and SetItem is the only step that changes an existing value (one bit *)
(*    of one register), every other step only fills its destination;       *)
(*  - generates histories (`prog') which are replayed on the real library: *)
(*    with SpecEnum exhaustively (every operation, with the operand values *)
(*    at which implementations like to take short cuts, followed by an     *)
(*    item assignment to each object involved), with SpecSim at random     *)
(*    (TLC -simulate), long histories over many registers.                 *)
(***************************************************************************)
EXTENDS BVStep, FiniteSets, Json, IOUtils

CONSTANTS NV, NB, Len_, MaxW, Mix

VARIABLES regs, prog, pc
vars == <<regs, prog, pc>>

Vec == 1..NV
Bits == (NV + 1)..(NV + NB)
Reg(i) == [k |-> "reg", i |-> i]
Types == {"BV", "NV", "UV", "SV", "MB", "MU", "MS"}
OpsAll == {"&", "|", "^", "+", "-", "*", "<<", ">>", "//", "%", "==", "!=", "<", "<=", ">", ">="}
CmpOps == {"==", "!=", "<", "<=", ">", ">="}
Be == "c"

Pat(w, k) ==
    CASE k = 0 -> Zero(w)
      [] k = 1 -> Ones(w)
      [] k = 2 -> Mk(w, LAMBDA i : IF i = 1 THEN 1 ELSE 0)
      [] k = 3 -> Mk(w, LAMBDA i : IF i = w THEN 1 ELSE 0)
      [] k = 4 -> Mk(w, LAMBDA i : i % 2)
      [] k = 5 -> Mk(w, LAMBDA i : IF i <= w \div 2 THEN 1 ELSE 0)
      [] k = 6 -> Mk(w, LAMBDA i : IF i = w THEN 0 ELSE 1)
      [] OTHER -> Mk(w, LAMBDA i : RandomElement({0, 1}))

LitInt(i) == IntVal(ZOfNat(i))

Do(e) ==
    LET x == IF e.op = "load" THEN e.x ELSE Expect(regs, e, Be)
    IN  /\ regs' = Store(regs, e, x)
        /\ prog' = Append(prog, e)

DoSet(e) ==
    LET res == SetItem(Val(regs, e.x), e.i, Val(regs, e.y))
    IN  /\ regs' = [regs EXCEPT ![e.x.i] = [@ EXCEPT !.b = res[2]]]
        /\ prog' = Append(prog, e)

VDest(op) == IF op \in CmpOps \cup CmpM THEN Bits ELSE Vec

(***************************************************************************)
(* Exhaustive short histories                                              *)
(***************************************************************************)
EnumOps(w) ==
    {[op |-> "bin", o |-> o] : o \in OpsAll}
    \cup {[op |-> "meth", o |-> o] : o \in ArithM \cup {"bvcomp", "bveq", "bvslt"}}
    \cup {[op |-> "un", o |-> o] : o \in {"~", "-", "bvnot", "bvneg"}}
    \cup {[op |-> "ext", o |-> o, n |-> n] : o \in {"zext", "sext", "ext"}, n \in {0, 1}}
    \cup {[op |-> "ext", o |-> "repeat", n |-> n] : n \in {1, 2}}
    \cup {[op |-> "slice", sl |-> [hl |-> 0, lo |-> 0, hh |-> 0, hi |-> 0, hs |-> 0, step |-> 0]],
          [op |-> "slice", sl |-> [hl |-> 1, lo |-> 0, hh |-> 1, hi |-> w, hs |-> 0, step |-> 0]],
          [op |-> "slice", sl |-> [hl |-> 1, lo |-> w - 1, hh |-> 1, hi |-> w, hs |-> 0, step |-> 0]]}
    \cup {[op |-> "concat"], [op |-> "adc"], [op |-> "bitite"], [op |-> "vecite"]}
    \cup {[op |-> "cons", t |-> t, w |-> v] : t \in {"BV", "SV"}, v \in {w, w + 1}}
    \cup {[op |-> "get", i |-> 0]}

EnumInit ==
    \E w \in {1, 3}, t \in {"BV", "SV"}, kx \in {0, 1, 4}, ky \in {0, 1, 2} :
       LET x == BVal(Be, t, Pat(w, kx))
           y == BVal(Be, t, Pat(w, ky))
       IN  /\ regs = (1 :> x) @@ (2 :> y)
           /\ prog = <<[op |-> "load", x |-> x, d |-> 1], [op |-> "load", x |-> y, d |-> 2]>>
           /\ pc = 0

\* fills in the operands of an operation scheme
Arm(c) ==
    LET v == regs[1]
    IN  CASE c.op \in {"bin", "meth"} ->
               [op |-> c.op, o |-> c.o, x |-> Reg(1), d |-> IF c.o \in CmpOps \cup CmpM THEN NV + 1 ELSE 3,
                y |-> IF c.op = "meth" /\ c.o \in {"bvrol", "bvror"} THEN IntVal(BVToZU(regs[2].b)) ELSE Reg(2)]
          [] c.op \in {"un"} -> [op |-> c.op, o |-> c.o, x |-> Reg(1), d |-> 3]
          [] c.op = "ext" -> [op |-> c.op, o |-> c.o, n |-> c.n, x |-> Reg(1), d |-> 3]
          [] c.op = "slice" -> [op |-> c.op, sl |-> c.sl, x |-> Reg(1), d |-> 3]
          [] c.op = "concat" -> [op |-> c.op, x |-> Reg(1), y |-> Reg(2), d |-> 3]
          [] c.op = "adc" -> [op |-> c.op, x |-> Reg(1), y |-> Reg(2), z |-> LitInt(0), d |-> 3, d2 |-> NV + 1]
          [] c.op = "bitite" -> [op |-> c.op, z |-> BitVal(Be, TRUE), x |-> Reg(1), y |-> Reg(2), d |-> 3]
          [] c.op = "vecite" -> [op |-> c.op, z |-> Reg(1), x |-> Reg(1), y |-> Reg(2), d |-> 3]
          [] c.op = "cons" -> [op |-> c.op, t |-> c.t, w |-> c.w, x |-> Reg(1), d |-> 3]
          [] c.op = "get" -> [op |-> c.op, i |-> c.i, x |-> Reg(1), d |-> NV + 1]

EnumCall ==
    /\ pc = 0
    /\ \E c \in EnumOps(regs[1].w) : Do(Arm(c))
    /\ pc' = 1
EnumSet ==
    /\ pc = 1
    /\ \E r \in DOMAIN regs \cap Vec :
          LET v == regs[r] IN DoSet([op |-> "set", x |-> Reg(r), i |-> v.w - 1, y |-> LitInt(1 - v.b[v.w])])
    /\ pc' = 2
\* the same call again: it depends on nothing but the present values
EnumAgain ==
    /\ pc = 2
    /\ Do(prog[3])
    /\ pc' = 3
EnumEmit ==
    /\ pc = 3
    /\ TLCSet(1, Append(TLCGet(1), prog))
    /\ pc' = 4 /\ UNCHANGED <<regs, prog>>

(***************************************************************************)
(* Random long histories                                                   *)
(***************************************************************************)
R(S) == {RandomElement(S)}

SimInit ==
    /\ regs = <<>> /\ prog = <<>> /\ pc = 0

SimLoad ==
    /\ pc < NV
    /\ \E w \in IF pc = 0 THEN R({1, 2, 3, 4, 5, 8, 13, 16, 31, 32, 33, MaxW}) ELSE {regs[1].w} :
       \E t \in IF Mix THEN R(Types) ELSE IF pc = 0 THEN R({"BV", "UV", "SV", "MB", "MS"}) ELSE {regs[1].t} :
       \E p \in R(0..12) : \E b \in {Pat(w, p)} :
          Do([op |-> "load", x |-> BVal(Be, t, b), d |-> pc + 1])
    /\ pc' = pc + 1
SimLoadBit ==
    /\ pc >= NV /\ pc < NV + NB
    /\ \E p \in R({TRUE, FALSE}) : Do([op |-> "load", x |-> BitVal(Be, p), d |-> pc + 1])
    /\ pc' = pc + 1

\* registers that can be the other operand of v
Peers(v) == {i \in Vec : regs[i].w = v.w /\ (Mix \/ regs[i].t = v.t)}

SimStep ==
    \E kind \in R(1..30) : \E x \in R(Vec) : \E d \in R(Vec) : \E db \in R(Bits) : \E bb \in R(Bits) :
    \E v \in {regs[x]} :
      CASE kind <= 7 ->
             \E y \in R(Peers(v)) : \E o \in R(OpsAll) : \E lit \in R(1..5) : \E n \in R(0..40) :
                Do([op |-> "bin", o |-> o, x |-> Reg(x), y |-> IF lit = 1 THEN LitInt(n) ELSE Reg(y),
                    d |-> IF o \in CmpOps THEN db ELSE d])
        [] kind \in 8..12 ->
             \E y \in R(Peers(v)) : \E o \in R(ArithM \cup CmpM) : \E n \in R(0..40) :
                Do([op |-> "meth", o |-> o, x |-> Reg(x), y |-> IF o \in {"bvrol", "bvror"} THEN LitInt(n) ELSE Reg(y),
                    d |-> IF o \in CmpM THEN db ELSE d])
        [] kind = 13 -> \E o \in R({"~", "-", "bvnot", "bvneg"}) : Do([op |-> "un", o |-> o, x |-> Reg(x), d |-> d])
        [] kind = 14 -> \E i \in R((-v.w)..(v.w - 1)) : Do([op |-> "get", i |-> i, x |-> Reg(x), d |-> db])
        [] kind \in {15, 16} ->
             \E lo \in R(0..(v.w - 1)) : \E hi \in R((lo + 1)..v.w) : \E neg \in R({0, 1, 2, 3}) :
                Do([op |-> "slice", x |-> Reg(x), d |-> d,
                    sl |-> [hl |-> IF lo = 0 THEN neg % 2 ELSE 1, lo |-> IF neg = 2 THEN lo - v.w ELSE lo,
                            hh |-> IF hi = v.w THEN neg \div 2 ELSE 1, hi |-> IF neg = 3 /\ hi < v.w THEN hi - v.w ELSE hi,
                            hs |-> 0, step |-> 0]])
        [] kind \in {17, 18} ->
             \E y \in R({i \in Vec : regs[i].t = v.t}) :
                IF v.w + regs[y].w <= MaxW THEN Do([op |-> "concat", x |-> Reg(x), y |-> Reg(y), d |-> d])
                ELSE \E w \in R({1, 4, 8, regs[1].w}) : Do([op |-> "cons", t |-> v.t, w |-> w, x |-> Reg(x), d |-> d])
        [] kind = 19 ->
             \E o \in R({"zext", "sext", "ext"}) : \E n \in R(0..4) :
                Do([op |-> "ext", o |-> o, x |-> Reg(x), n |-> IF v.w + n <= MaxW THEN n ELSE 0, d |-> d])
        [] kind = 20 -> \E n \in R(1..3) : Do([op |-> "ext", o |-> "repeat", x |-> Reg(x), n |-> IF n * v.w <= MaxW THEN n ELSE 1, d |-> d])
        [] kind = 21 -> \E y \in R(Peers(v)) : Do([op |-> "adc", x |-> Reg(x), y |-> Reg(y), z |-> Reg(bb), d |-> d, d2 |-> db])
        [] kind \in {22, 23} ->
             \E y \in R({i \in Vec : regs[i].w = v.w /\ regs[i].t = v.t}) : Do([op |-> "bitite", z |-> Reg(bb), x |-> Reg(x), y |-> Reg(y), d |-> d])
        [] kind = 24 ->
             \E y \in R({i \in Vec : regs[i].w = v.w /\ regs[i].t = v.t}), z \in R(Vec) :
                Do([op |-> "vecite", z |-> Reg(z), x |-> Reg(x), y |-> Reg(y), d |-> d])
        [] kind = 25 ->
             \E t \in R(IF Mix THEN Types ELSE {v.t}) : \E w \in R({regs[i].w : i \in Vec} \cup {1, v.w + 1}) :
                Do([op |-> "cons", t |-> t, w |-> MinI(w, MaxW), x |-> Reg(x), d |-> d])
        [] kind = 26 -> \E o \in R({"&", "|", "^", "==", "!="}) : \E y \in R(Bits) :
                Do([op |-> "bitop", o |-> o, x |-> Reg(bb), y |-> Reg(y), left |-> 1, d |-> db])
        [] kind = 27 -> Do([op |-> "un", o |-> "~", x |-> Reg(bb), d |-> db])
        [] OTHER ->
             \E i \in R((-v.w)..(v.w - 1)) : \E lit \in R({0, 1}) : \E n \in R({0, 1}) :
                DoSet([op |-> "set", x |-> Reg(x), i |-> i, y |-> IF lit = 1 THEN LitInt(n) ELSE Reg(bb)])

SimCall == pc >= NV + NB /\ pc < Len_ /\ SimStep /\ pc' = pc + 1
SimEmit ==
    /\ pc = Len_
    /\ TLCSet(1, Append(TLCGet(1), prog))
    /\ pc' = pc + 1 /\ UNCHANGED <<regs, prog>>

NextEnum == EnumCall \/ EnumSet \/ EnumAgain \/ EnumEmit
NextSim == SimLoad \/ SimLoadBit \/ SimCall \/ SimEmit
InitEnum == TLCSet(1, <<>>) /\ EnumInit
InitSim == TLCSet(1, <<>>) /\ SimInit
SpecEnum == InitEnum /\ [][NextEnum]_vars
SpecSim == InitSim /\ [][NextSim]_vars

(***************************************************************************)
(* Properties of the machine                                               *)
(***************************************************************************)
WellFormed ==
    \A i \in DOMAIN regs :
       LET v == regs[i] IN
       IF i \in Vec THEN v.k = "bv" /\ v.w = Len(v.b) /\ v.w >= 1 /\ v.t \in Types /\ \A j \in 1..v.w : v.b[j] \in {0, 1}
       ELSE v.k = "bit" /\ v.b \in {0, 1}
Isolated ==
    [][ LET e == IF Len(prog') > Len(prog) THEN prog'[Len(prog')] ELSE [op |-> "none"]
            changed == {i \in DOMAIN regs : regs'[i] # regs[i]}
        IN  IF e.op = "set"
            THEN /\ changed \subseteq {e.x.i}
                 /\ Cardinality({j \in 1..regs[e.x.i].w : regs'[e.x.i].b[j] # regs[e.x.i].b[j]}) <= 1
            ELSE changed \subseteq (IF Has(e, "d") THEN {e.d} ELSE {}) \cup (IF Has(e, "d2") THEN {e.d2} ELSE {}) ]_vars

Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
