---------------------------------- MODULE Ite ----------------------------------
(***************************************************************************)
(* Selection between two values.  A vector that came out of an ite over two *)
(* different types carries, besides the type t it behaves like (that of the *)
(* selected branch), its static type ty ("poly" when the branches' types    *)
(* differ) and the supertypes sup it is known to have.                      *)
(***************************************************************************)
EXTENDS BVStep, FiniteSets

Sups(t) == {t} \cup {u \in {"BV", "NV", "UV", "SV"} : SubT(t, u)} \cup (IF t \in {"MB", "MU"} THEN {"Mixin"} ELSE {})
\* a vector of a plain type
PVal(be, t, b) == BVal(be, t, b) @@ [ty |-> t, sup |-> Sups(t)]
\* result r of an operation that computes a value of v's type
Deco(r, v) == IF r.k = "bv" THEN r @@ [ty |-> v.ty, sup |-> v.sup] ELSE r

\* A bit is plain (kind "bit"), of a type c a user derived ("ubit"), or came
\* out of an ite over two of their types ("pbit"): it acts like one of type c
\* and is one of the types in sup.
\* Type Q derives from P and has a conjunction of its own, always true.
BitKinds == {"bit", "ubit", "pbit"}
BSups(x) == CASE x.k = "bit" -> {} [] x.k = "ubit" -> (IF x.c = "Q" THEN {"P", "Q"} ELSE {"P"}) [] OTHER -> x.sup
BCls(x) == CASE x.k = "bit" -> "" [] OTHER -> x.c
ChooseBit(p, x, y) ==
    IF x.k = y.k /\ x.k # "pbit" /\ BCls(x) = BCls(y) THEN (IF p THEN x ELSE y)
    ELSE [k |-> "pbit", be |-> x.be, b |-> IF p THEN x.b ELSE y.b, c |-> IF p THEN BCls(x) ELSE BCls(y), sup |-> BSups(x) \cap BSups(y)]

Sized(x) == x.k = "bv"
RECURSIVE Reconcilable(_, _)
Reconcilable(x, y) ==
    CASE x.k = "tup" /\ y.k = "tup" -> Len(x.e) = Len(y.e) /\ \A i \in 1..Len(x.e) : Reconcilable(x.e[i], y.e[i])
      [] x.k \in BitKinds /\ y.k \in BitKinds -> x.be = y.be
      [] x.k = "bv" /\ y.k = "bv" -> x.w = y.w /\ x.be = y.be
      [] x.k = "proto" /\ y.k = "proto" -> x.c = y.c
      [] OTHER -> FALSE

\* the value selected, with the type both branches account for
RECURSIVE Choose2(_, _, _)
Choose2(p, x, y) ==
    CASE x.k = "tup" -> Tup([i \in 1..Len(x.e) |-> Choose2(p, x.e[i], y.e[i])])
      [] x.k = "bv" -> [k |-> "bv", be |-> x.be, w |-> x.w, b |-> IF p THEN x.b ELSE y.b, t |-> IF p THEN x.t ELSE y.t,
                        ty |-> IF x.ty = y.ty /\ x.ty # "poly" THEN x.ty ELSE "poly", sup |-> x.sup \cap y.sup]
      [] x.k = "proto" -> [x EXCEPT !.v = Choose2(p, x.v, y.v)]
      [] x.k \in BitKinds /\ y.k \in BitKinds -> ChooseBit(p, x, y)
      [] OTHER -> IF p THEN x ELSE y
\* all vectors have their types in common
RECURSIVE Alike(_, _)
Alike(x, y) ==
    CASE x.k = "tup" -> \A i \in 1..Len(x.e) : Alike(x.e[i], y.e[i])
      [] x.k = "bv" -> x.ty = y.ty /\ x.ty # "poly"
      [] x.k \in BitKinds -> x.k = y.k /\ x.k # "pbit" /\ BCls(x) = BCls(y)
      [] OTHER -> TRUE
\* a type that depends on a selection does so on a bit of its own family
IteCross(p, x, y) == IF Reconcilable(x, y) /\ Alike(x, y) THEN Choose2(p, x, y) ELSE TypeErr
IteVal(p, x, y) == IF Reconcilable(x, y) THEN Choose2(p, x, y) ELSE TypeErr

Truth(z) == IF z.k = "bit" THEN z.b = 1 ELSE ~IsZero(z.b)

\* operators: those of the type the left vector behaves like, except that a
\* right operand of a more specific type decides first
Reflected(x, y) == y.k = "bv" /\ x.k = "bv" /\ y.ty # x.ty /\ x.ty \in y.sup
IOperator(o, x, y) ==
    LET signed == x.k = "bv" /\ y.k = "bv" /\ (SignedT(x.t) \/ (SignedT(y.t) /\ Reflected(x, y)))
        r == IF x.k = "bv" /\ y.k = "bv" THEN MethodCall(OpMethod(o, signed), x, y) ELSE Operator(o, x, y)
    IN  Deco(r, IF x.k = "bv" THEN x ELSE y)

IExpect(rs, e, be) ==
    LET V(f) == InBe(Val(rs, f), be)
        x == V(e.x)
    IN  CASE e.op = "ite" -> IteVal(Truth(V(e.z)), x, V(e.y))
          [] e.op = "bin" -> IOperator(e.o, x, V(e.y))
          [] e.op = "bitop" -> BitOp(e.o, x, V(e.y))
          [] e.op = "meth" -> Deco(MethodCall(e.o, x, V(e.y)), x)
          [] e.op = "un" -> Deco(Unary(e.o, x), x)
          [] e.op = "ext" -> Deco(Extend(e.o, x, e.n), x)
          [] e.op = "slice" -> Deco(GetSlice(x, e.sl), x)
          [] e.op = "get" -> GetItem(x, e.i)
          [] e.op = "double" -> BVal(be, x.t, Concat(x.b, x.b)) @@ [ty |-> x.ty, sup |-> x.sup]
          [] e.op = "load" -> x

\* an observed value r is w: its type is exactly the plain one required, or
\* one below all the supertypes known
RECURSIVE Agrees(_, _)
Agrees(r, w) ==
    /\ r.k = w.k
    /\ CASE w.k \in {"ubit", "pbit"} -> /\ r.be = w.be /\ r.b = w.b
                                       /\ r.and = (IF BCls(w) = "Q" THEN 1 ELSE 0)     \* conjunction with 0
                                       /\ \A u \in BSups(w) : \E i \in 1..Len(r.sup) : r.sup[i] = u
                                       /\ w.k = "ubit" => r.c = w.c
         [] w.k = "bv" -> /\ r.be = w.be /\ r.w = w.w /\ r.b = w.b
                          /\ IF w.ty = "poly" THEN \A s \in w.sup : \E i \in 1..Len(r.sup) : r.sup[i] = s
                             ELSE r.t = w.ty
         [] w.k = "tup" -> Len(r.e) = Len(w.e) /\ \A i \in 1..Len(w.e) : Agrees(r.e[i], w.e[i])
         [] w.k = "proto" -> r.c = w.c /\ Agrees(r.v, w.v)
         [] w.k = "exc" -> r.c \in {w.c, "InconsistentSizeError"}
         [] OTHER -> r = w
=============================================================================
