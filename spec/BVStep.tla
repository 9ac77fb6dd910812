-------------------------------- MODULE BVStep --------------------------------
(***************************************************************************)
(* One call of the register machine: its operands are literals or registers *)
(* (rs maps register numbers to abstract values), its expected result.      *)
(* Shared by BVMachine (which generates histories and is model checked) and *)
(* BVTrace (which validates recorded histories of the real code).           *)
(***************************************************************************)
EXTENDS BVApi

Has(e, f) == f \in DOMAIN e
\* operand: a register reference or a literal
Val(rs, x) == IF x.k = "reg" THEN IF x.i \in DOMAIN rs THEN rs[x.i] ELSE [k |-> "junk"] ELSE x

\* the same abstract value in another backend
RECURSIVE InBe(_, _)
InBe(x, be) == CASE x.k \in {"bv", "bit"} -> [x EXCEPT !.be = be]
                 [] x.k = "tup" -> [x EXCEPT !.e = [i \in 1..Len(x.e) |-> InBe(x.e[i], be)]]
                 [] OTHER -> x

Unary(m, v) ==
    CASE m \in {"~", "bvnot"} -> IF v.k = "bit" THEN BitVal(v.be, v.b = 0) ELSE BVal(v.be, v.t, BNot(v.b))
      [] m \in {"-", "bvneg"} -> BVal(v.be, v.t, Neg(v.b))
      \* a copy, a same type conversion
      [] m \in {"copy", "reg"} -> v

View(m, v) ==
    CASE m = "as_uint" -> IntVal(BVToZU(v.b))
      [] m = "as_sint" -> IntVal(BVToZS(v.b))
      [] m = "as_int" -> IntVal(BVToZS(v.b))
      [] m = "int" -> IntVal(IF v.k = "bit" THEN BVToZU(<<v.b>>) ELSE IntOf(v))
      [] m = "value" -> IntVal(BVToZU(v.b))
      [] m = "str" -> IntVal(IntOf(v))          \* the decimal text, read back
      [] m = "bool" -> BoolVal(IF v.k = "bit" THEN v.b = 1 ELSE ~IsZero(v.b))
      [] m \in {"bits", "as_bool_list"} -> [k |-> "seq", e |-> v.b]
      [] m = "binary_string" -> [k |-> "str", s |-> BinText(v.b)]
      [] m = "as_binary_string" -> [k |-> "str", s |-> "0b" \o BinText(v.b)]
      [] m = "len" -> IntVal(ZOfNat(v.w))
      [] m = "size" -> IntVal(ZOfNat(v.w))
      [] m = "num_bits" -> IntVal(ZOfNat(v.w))
      [] m = "repr" -> IF v.k = "bit" THEN [k |-> "str", s |-> IF v.b = 1 THEN "Bit(True)" ELSE "Bit(False)"]
                       ELSE [k |-> "repr", n |-> PyName(v.t) \o "[" \o ToString(v.w) \o "]",
                             s |-> 0, b |-> BVToZU(v.b).b]
      \* rebuilding from the view gives v back
      [] m = "rebuild" -> v

\* symbolic integers: unbounded, kind "zint"; Python integers convert
ZVal(z) == [k |-> "zint", s |-> z.s, b |-> z.b]
IntCoerce(x) ==
    CASE x.k \in {"zint", "int", "obj"} -> Good(ZOf(x))
      [] x.k = "bool" -> Good(ZInt(0, <<x.b>>))
      [] x.k = "bv" -> Good(BVToZU(x.b))
      [] OTHER -> Bad(TypeErr)
IntFn(op, p, q) ==
    CASE op = "+" -> ZVal(ZAdd(p, q))
      [] op = "-" -> ZVal(ZSub(p, q))
      [] op = "*" -> ZVal(ZMul(p, q))
      [] op = "//" -> ZVal(ZDivE(p, q))
      [] op = "<" -> BitVal("s", ZLt(p, q))
      [] op = "<=" -> BitVal("s", ~ZLt(q, p))
      [] op = ">" -> BitVal("s", ZLt(q, p))
      [] op = ">=" -> BitVal("s", ~ZLt(p, q))
      [] op = "==" -> BitVal("s", ZEq(p, q))
      [] op = "!=" -> BitVal("s", ~ZEq(p, q))
IntOp(op, x, y) ==
    LET p == IntCoerce(x)
        q == IntCoerce(y)
    IN  IF p.ok /\ q.ok THEN IntFn(op, p.b, q.b) ELSE Fallback(op)

MinWidth(x) ==
    CASE x.k = "bv" -> x.w
      [] x.k = "bit" -> 1
      [] x.k = "seq" -> MaxI(Len(x.e), 1)
      [] x.k = "bool" -> 1
      [] x.k \in {"int", "obj"} -> MaxI(Len(Trim(x.b)), 1)
      [] OTHER -> 1

\* z3's own selection also takes data as branches: beside a vector they become
\* vectors of its type, two of them take the wider of their widths
ZIte(be, c, x, y) ==
    LET AsBV(v, t, w) == LET r == Construct(be, w, v) IN IF r.ok THEN BVal(be, t, r.b) ELSE r.err
        Pair(p, q) == IF p.k # "bv" THEN p ELSE IF q.k # "bv" THEN q ELSE IF c = 1 THEN p ELSE q
        w == MaxI(MinWidth(x), MinWidth(y))
        Wide(v) == LET r == Construct(be, MinWidth(v), v) IN IF r.ok THEN BVal(be, "BV", ZExt(r.b, w - Len(r.b))) ELSE r.err
    IN  IF x.k = "bv" /\ y.k = "bv" THEN (IF x.t = y.t /\ x.w = y.w THEN Pair(x, y) ELSE Exc("TypeError"))
        ELSE IF x.k = "bv" THEN Pair(x, AsBV(y, x.t, x.w))
        ELSE IF y.k = "bv" THEN Pair(AsBV(x, y.t, y.w), y)
        ELSE Pair(Wide(x), Wide(y))

Expect(rs, e, be) ==
    LET V(f) == InBe(Val(rs, f), be)
    IN CASE e.op = "bin" -> Operator(e.o, V(e.x), V(e.y))
         [] e.op = "meth" -> MethodCall(e.o, V(e.x), V(e.y))
         [] e.op = "un" -> Unary(e.o, V(e.x))
         [] e.op = "get" -> GetItem(V(e.x), e.i)
         [] e.op = "slice" -> GetSlice(V(e.x), e.sl)
         [] e.op = "concat" -> ConcatV(V(e.x), V(e.y))
         [] e.op = "ext" -> Extend(e.o, V(e.x), e.n)
         [] e.op = "adc" -> Adc(V(e.x), V(e.y), V(e.z))
         [] e.op = "ovf" -> BitVal(be, Overflow(V(e.x).b, V(e.y).b))
         [] e.op = "view" -> View(e.o, V(e.x))
         [] e.op = "cons" -> LET c == Construct(be, e.w, V(e.x))
                             IN  IF c.ok THEN BVal(be, e.t, c.b) ELSE c.err
         [] e.op = "implicit" -> LET c == Construct(be, MinWidth(e.x), e.x)
                                 IN  IF c.ok THEN BVal(be, e.t, c.b) ELSE c.err
         [] e.op = "bitop" -> IF e.left = 1 THEN BitOp(e.o, V(e.x), V(e.y)) ELSE BitOp(e.o, V(e.y), V(e.x))
         [] e.op = "consbit" -> LET c == BitCoerce(V(e.x))
                                IN  IF c.ok THEN BitVal(be, c.b[1] = 1) ELSE c.err
         [] e.op = "bitite" -> IF V(e.z).b = 1 THEN V(e.x) ELSE V(e.y)
         [] e.op = "zite" -> ZIte(be, V(e.z).b, V(e.x), V(e.y))
         [] e.op = "vecite" -> IF IsZero(V(e.z).b) THEN V(e.y) ELSE V(e.x)
         [] e.op = "chain" -> LET r == AddC(e.x.b, e.y.b, e.z.b)
                              IN  Tup(<<BVal(be, "BV", r[2]), BitVal(be, r[1] = 1)>>)
         [] e.op = "bitexpr" ->
               LET F(o, p, q) == BitFn(o, p, q)
                   p == e.p = 1
                   q == e.q = 1
                   t == e.s = 1
               IN  BitVal(be, CASE e.form = 0 -> F(e.o2, F(e.o1, p, q), t)
                                [] e.form = 1 -> F(e.o2, p, F(e.o1, q, t))
                                [] e.form = 2 -> F(e.o2, ~p, F(e.o1, TRUE, q))
                                [] e.form = 3 -> F(e.o2, F(e.o1, p, FALSE), F(e.o1, TRUE, t)))
         [] e.op = "ibin" -> IntOp(e.o, V(e.x), V(e.y))
         [] e.op = "ineg" -> ZVal(ZNeg(ZOf(V(e.x))))
         [] e.op = "toint" -> LET c == IntCoerce(V(e.x)) IN IF c.ok THEN ZVal(c.b) ELSE c.err
         [] e.op = "iview" -> ZVal(IF e.o = "as_uint" THEN BVToZU(V(e.x).b) ELSE BVToZS(V(e.x).b))
         [] e.op = "randbit" -> [k |-> "seq", e |-> <<0, 1>>]
         [] e.op = "true" -> BoolVal(TRUE)
         [] e.op = "raises" -> Exc(e.c)

\* the whole effect of a step: item assignment changes its vector in place,
\* every other call fills its destination
SetRegs(rs, e, be) ==
    IF e.x.k = "reg"
    THEN [rs EXCEPT ![e.x.i] = [@ EXCEPT !.b = SetItem(InBe(Val(rs, e.x), be), e.i, InBe(Val(rs, e.y), be))[2]]]
    ELSE rs
\* registers after the call e with result val: e.d names the destination, a
\* pair result goes to e.d and e.d2
Store(rs, e, val) ==
    IF ~Has(e, "d") THEN rs
    ELSE IF Has(e, "d2") /\ val.k = "tup" /\ Len(val.e) = 2
         THEN (e.d :> val.e[1]) @@ (e.d2 :> val.e[2]) @@ rs
         ELSE (e.d :> val) @@ rs
StepRegs(rs, e, be) ==
    CASE e.op = "load" -> Store(rs, e, e.x)
      [] e.op = "set" -> SetRegs(rs, e, be)
      [] OTHER -> Store(rs, e, Expect(rs, e, be))
\* registers after a whole program, its inputs taken from rs
RunProg(rs, prog, be) == FoldLeft(LAMBDA acc, e : StepRegs(acc, e, be), rs, prog)
=============================================================================
