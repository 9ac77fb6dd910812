---------------------------- MODULE UtilMachine ----------------------------
(***************************************************************************)
(* Histories of mappings and typed properties.  Focus "pairs": every two    *)
(* small mappings, one of them frozen, compared; "maps" and "props": random *)
(* histories.                                                               *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils
CONSTANTS NR, MaxLen, Focus
VARIABLES regs, props, classes, prog
vars == <<regs, props, classes, prog>>
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
None == [k |-> "", o |-> <<>>, of |-> 0]
Used == {i \in 1..NR : regs[i].k # ""}
Cont(i) == IF regs[i].k = "proxy" THEN regs[regs[i].of].o ELSE regs[i].o
FrozenRegs == {i \in Used : regs[i].k \in Frozen}
Log(e) == prog' = Append(prog, e)
RECURSIVE Depth(_)
Depth(v) == IF v.k = "int" THEN 0 ELSE 1 + FoldLeft(LAMBDA m, x : IF Depth(x.v) > m THEN Depth(x.v) ELSE m, 0, v.o)
\* a random value: a number or a frozen dictionary held
Vals == {Num(n) : n \in 0..2} \cup {v \in {[k |-> regs[i].k, n |-> 0, o |-> regs[i].o] : i \in FrozenRegs} : Depth(v) < 3 /\ Len(v.o) < 4}
KeySet == {"a", "b", "c", "d"}
Items(n) == [i \in 1..n |-> [n |-> RandomElement(KeySet), v |-> IF RandomElement(1..3) = 1 THEN RandomElement(Vals) ELSE Num(RandomElement(0..1))]]
NoProps == UNCHANGED <<props, classes>>
NoRegs == UNCHANGED regs
\* made from pairs (and keywords); from another mapping
MakeA(d) == \E k \in R({"dict", "odict", "user", "fd", "fd", "ofd", "ofd"}), how \in R({"pairs", "map", "kwargs"}), n \in R(0..4) : \E xs \in {Items(n)}, m \in R(0..2) : \E kw \in {Items(m)} :
              LET kws == PutAll(<<>>, kw)
                  first == IF how = "kwargs" THEN <<>> ELSE xs
              IN  /\ regs' = [regs EXCEPT ![d] = [k |-> k, o |-> PutAll(PutAll(<<>>, first), kws), of |-> 0]] /\ NoProps
                  /\ Log([a |-> "make", k |-> k, how |-> how, xs |-> first, kw |-> kws, dst |-> d])
Retargeted(d) == {i \in Used : regs[i].k = "proxy" /\ regs[i].of = d}
From(d, i) == \E k \in R({"dict", "odict", "fd", "ofd", "fd", "ofd", "user"}) :
                /\ regs' = [regs EXCEPT ![d] = [k |-> k, o |-> Cont(i), of |-> 0]] /\ NoProps /\ Log([a |-> "from", k |-> k, x |-> i, dst |-> d])
Proxy(d, i) == IF regs[i].k = "dict" /\ d # i THEN regs' = [regs EXCEPT ![d] = [k |-> "proxy", o |-> <<>>, of |-> i]] /\ NoProps /\ Log([a |-> "proxy", x |-> i, dst |-> d])
               ELSE MakeA(d)
Mut(i) == IF regs[i].k \in {"dict", "odict", "user"}
          THEN \E n \in R(KeySet), w \in R(1..3) : \E v \in {RandomElement(Vals)} :
               LET o == IF w = 1 /\ n \in Keys(regs[i].o) THEN Del(regs[i].o, n)
                        ELSE IF w = 2 /\ n \in Keys(regs[i].o) /\ regs[i].k = "odict" THEN Append(Del(regs[i].o, n), [n |-> n, v |-> At(regs[i].o, n)])
                        ELSE Put(regs[i].o, n, v)
                   how == IF w = 1 /\ n \in Keys(regs[i].o) THEN "del" ELSE IF w = 2 /\ n \in Keys(regs[i].o) /\ regs[i].k = "odict" THEN "move" ELSE "put"
               IN  regs' = [regs EXCEPT ![i].o = o] /\ NoProps /\ Log([a |-> "mut", how |-> how, x |-> i, n |-> n, v |-> v])
          ELSE Log([a |-> "wrong", x |-> i]) /\ NoRegs /\ NoProps
Look(w, i) == Log([a |-> w, x |-> i]) /\ NoRegs /\ NoProps
Cmp(i, j) == Log([a |-> "cmp", x |-> i, y |-> j]) /\ NoRegs /\ NoProps
\* no proxy may be left without its dictionary
Free == {d \in 1..NR : Retargeted(d) = {}}
MapStep == \E d \in R(Free), w \in R(1..12) :
             IF Cardinality(Used) < 3 THEN MakeA(d)
             ELSE \E i \in R(Used), f \in R(IF FrozenRegs = {} THEN Used ELSE FrozenRegs), j \in R(Used) :
                  CASE w \in 1..2 -> MakeA(d) [] w \in 3..4 -> From(d, i) [] w = 5 -> Proxy(d, i) [] w \in 6..7 -> Mut(i)
                    [] w \in 8..10 -> Cmp(f, j) [] w = 11 -> Look("look", f) [] w = 12 -> Look("wrong", f)
\* properties
NP == 6
Types == {"int", "str", "K", "object"}
Acc == {"g", "s", "d"}
PropStep ==
    \E w \in R(1..14), d \in R(1..NP), p \in R(1..NP), c \in R(1..3), n \in R({"x", "y"}), id \in {Len(prog) + 1} :
      IF props[p].T = "" \/ w = 1
      THEN \E T \in R(Types), g \in R(0..1), s \in R(0..1), dd \in R(0..1), q \in {RandomElement({i \in 1..NP : ~\E cc \in 1..3, nn \in {"x", "y"} : classes[cc][nn] = i} \cup {0})} :
           IF q = 0 THEN UNCHANGED <<regs, props, classes>> /\ Log([a |-> "nop"])
           ELSE props' = [props EXCEPT ![q] = Prop(T, id * 10 * g, id * 10 * s + s, id * 10 * dd + 2 * dd)] /\ UNCHANGED <<regs, classes>>
                /\ Log([a |-> "prop", T |-> T, g |-> id * 10 * g, s |-> id * 10 * s + s, d |-> id * 10 * dd + 2 * dd, dst |-> q])
      ELSE CASE w \in 2..5 -> (\E acc \in R(Acc) :
                IF \E cc \in 1..3, nn \in {"x", "y"} : classes[cc][nn] = d THEN UNCHANGED <<regs, props, classes>> /\ Log([a |-> "nop"])
                ELSE props' = [props EXCEPT ![d] = [props[p] EXCEPT ![acc] = id * 10]] /\ UNCHANGED <<regs, classes>> /\ Log([a |-> "with", x |-> p, acc |-> acc, id |-> id * 10, dst |-> d]))
             [] w \in 6..7 -> (\E base \in R({0} \cup (1..(c - 1))), two \in R({0, 1}), q \in R(1..NP) :
                LET b == IF base = 0 THEN [x |-> 0, y |-> 0] ELSE classes[base]
                    m == IF two = 1 /\ props[q].T # "" THEN [b EXCEPT ![n] = p, ![IF n = "x" THEN "y" ELSE "x"] = q] ELSE [b EXCEPT ![n] = p]
                IN  classes' = [classes EXCEPT ![c] = m] /\ UNCHANGED <<regs, props>>
                    /\ Log([a |-> "class", c |-> c, base |-> base, n |-> n, p |-> p, q |-> IF two = 1 /\ props[q].T # "" THEN q ELSE 0]))
             [] OTHER -> (IF classes[c][n] = 0 THEN UNCHANGED <<regs, props, classes>> /\ Log([a |-> "nop"])
                ELSE \E how \in R({"cls", "get", "set", "set", "set", "del"}), v \in R({"int", "str", "K", "none"}) :
                     UNCHANGED <<regs, props, classes>> /\ Log([a |-> "use", how |-> how, c |-> c, n |-> n, v |-> v]))
\* every pair
SmallItems == UNION {{[i \in 1..m |-> [n |-> ks[i], v |-> Num(vs[i])]] : ks \in {k \in [1..m -> {"a", "b"}] : IsInjective(k)}, vs \in [1..m -> 0..1]} : m \in 0..2}
PairStep ==
    CASE Len(prog) = 0 -> \E k \in Frozen, xs \in SmallItems : regs' = [regs EXCEPT ![1] = [k |-> k, o |-> xs, of |-> 0]] /\ NoProps /\ Log([a |-> "make", k |-> k, how |-> "pairs", xs |-> xs, kw |-> <<>>, dst |-> 1])
      [] Len(prog) = 1 -> \E k \in {"fd", "ofd", "dict", "odict", "user"}, xs \in SmallItems : regs' = [regs EXCEPT ![2] = [k |-> k, o |-> xs, of |-> 0]] /\ NoProps /\ Log([a |-> "make", k |-> k, how |-> "pairs", xs |-> xs, kw |-> <<>>, dst |-> 2])
      [] Len(prog) = 2 -> Cmp(1, 2)
Emit == /\ Len(prog) = MaxLen /\ TLCSet(1, Append(TLCGet(1), prog))
        /\ prog' = Append(prog, [a |-> "end"]) /\ UNCHANGED <<regs, props, classes>>
Init == TLCSet(1, <<>>) /\ regs = [i \in 1..NR |-> None] /\ props = [i \in 1..NP |-> Prop("", 0, 0, 0)] /\ classes = [c \in 1..3 |-> [x |-> 0, y |-> 0]] /\ prog = <<>>
Next == (Len(prog) < MaxLen /\ (IF Focus = "maps" THEN MapStep ELSE IF Focus = "props" THEN PropStep ELSE PairStep)) \/ Emit
Spec == Init /\ [][Next]_vars
\* equality is symmetric and reflexive, and equal ones have the same items (so that a hash of these will do)
RECURSIVE Norm(_)
Norm(v) == IF v.k = "int" THEN [k |-> "int", n |-> v.n, s |-> {}] ELSE [k |-> "map", n |-> 0, s |-> {[n |-> x.n, v |-> Norm(x.v)] : x \in Range(v.o)}]
Laws == \A i, j \in Used : LET a == Same(regs[i].k, Cont(i), regs[j].k, Cont(j)) IN
          /\ a = Same(regs[j].k, Cont(j), regs[i].k, Cont(i)) /\ (i = j => a)
          /\ (a => Norm([k |-> "fd", n |-> 0, o |-> Cont(i)]) = Norm([k |-> "fd", n |-> 0, o |-> Cont(j)]))
          /\ IsInjective([q \in 1..Len(Cont(i)) |-> Cont(i)[q].n])
Written == ndJsonSerialize(IOEnv.PROGS, [i \in 1..Len(TLCGet(1)) |-> [prog |-> TLCGet(1)[i]]])
=============================================================================
