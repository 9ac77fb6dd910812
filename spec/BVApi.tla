-------------------------------- MODULE BVApi --------------------------------
(***************************************************************************)
(* Meaning of the public bit vector and bit operations, over abstract      *)
(* values.  Every value is a record whose field k names its kind, so that  *)
(* comparing an observation with an expectation is always defined:         *)
(*   [k |-> "bv", be, t, w, b]   vector: backend, type, width, bits        *)
(*   [k |-> "bit", be, b]        bit                                       *)
(*   [k |-> "int", s, b]         Python integer: sign, magnitude bits      *)
(*   [k |-> "bool", b]           Python bool                               *)
(*   [k |-> "obj", s, b]         other object with __int__ (its value)     *)
(*   [k |-> "seq", e]            sequence of bits                          *)
(*   [k |-> "tup", e]            tuple of values                           *)
(*   [k |-> "junk"]              object without any conversion             *)
(*   [k |-> "exc", c]            exception of class c                      *)
(* Backends: "c" concrete, "s" SMT (pysmt), "z" z3.  Types: "BV", "NV",    *)
(* "UV", "SV" for BitVector, NumVector, UIntVector, SIntVector; "MB", "MU", *)
(* "MS" for types a user derived from BitVector, UIntVector, SIntVector.     *)
(***************************************************************************)
EXTENDS BV, TLC

BVal(be, t, b) == [k |-> "bv", be |-> be, t |-> t, w |-> Len(b), b |-> b]
BitVal(be, p) == [k |-> "bit", be |-> be, b |-> IF p THEN 1 ELSE 0]
BoolVal(p) == [k |-> "bool", b |-> IF p THEN 1 ELSE 0]
IntVal(z) == [k |-> "int", s |-> z.s, b |-> z.b]
Exc(c) == [k |-> "exc", c |-> c]
Tup(e) == [k |-> "tup", e |-> e]
TypeErr == Exc("TypeError")
SizeErr == Exc("InconsistentSizeError")
ValErr == Exc("ValueError")
IdxErr == Exc("IndexError")

\* strict subtyping of the unsized types
SubT(t, u) == \/ u = "BV" /\ t # "BV"
              \/ u = "NV" /\ t \in {"UV", "SV", "MU", "MS"}
              \/ u = "UV" /\ t = "MU"
              \/ u = "SV" /\ t = "MS"
SignedT(t) == t \in {"SV", "MS"}

\* observation o is what e prescribes.  A TypeError may be any subclass.
RECURSIVE Same(_, _)
Same(o, e) ==
    /\ o.k = e.k
    /\ CASE o.k = "exc" -> o.c = e.c \/ (e.c = "TypeError" /\ o.c = "InconsistentSizeError")
         [] o.k = "tup" -> Len(o.e) = Len(e.e) /\ \A i \in 1..Len(o.e) : Same(o.e[i], e.e[i])
         [] OTHER -> o = e

(***************************************************************************)
(* Conversion of x to the bits of a vector of w bits: [ok, b] or [err].    *)
(***************************************************************************)
Good(b) == [ok |-> TRUE, b |-> b, err |-> TypeErr]
Bad(e) == [ok |-> FALSE, b |-> <<>>, err |-> e]

ZOf(x) == [s |-> x.s, b |-> x.b]

\* what the constructor T[w](x) holds
Construct(be, w, x) ==
    CASE x.k = "bv" -> Good(Resize(x.b, w))
      [] x.k \in {"bit", "bool"} -> Good(Resize(<<x.b>>, w))
      [] x.k \in {"int", "obj"} -> Good(ZToBV(ZOf(x), w))
      [] x.k = "seq" -> IF be = "c" THEN Good(Resize(x.e, w))
                        ELSE IF Len(x.e) = w THEN Good(x.e) ELSE Bad(ValErr)
      [] OTHER -> Bad(TypeErr)
\* what an operand x of a vector of w bits means
Coerce(be, w, x) ==
    IF x.k = "bv" THEN IF x.w = w THEN Good(x.b) ELSE Bad(IF be = "z" THEN TypeErr ELSE SizeErr)
    ELSE Construct(be, w, x)

ArithM == {"bvand", "bvor", "bvxor", "bvnand", "bvnor", "bvxnor", "bvshl", "bvlshr", "bvashr",
           "bvrol", "bvror", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem"}
CmpM == {"bveq", "bvne", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"}

\* bits of the result of the arithmetic method m
Arith(be, m, a, b) ==
    CASE m = "bvand" -> BAnd(a, b)
      [] m = "bvor" -> BOr(a, b)
      [] m = "bvxor" -> BXor(a, b)
      [] m = "bvnand" -> BNot(BAnd(a, b))
      [] m = "bvnor" -> BNot(BOr(a, b))
      [] m = "bvxnor" -> BNot(BXor(a, b))
      [] m = "bvshl" -> ShlV(a, b)
      [] m = "bvlshr" -> LshrV(a, b)
      [] m = "bvashr" -> AshrV(a, b)
      [] m = "bvrol" -> RolV(a, b)
      [] m = "bvror" -> RorV(a, b)
      [] m = "bvadd" -> Add(a, b)
      [] m = "bvsub" -> Sub(a, b)
      [] m = "bvmul" -> Mul(a, b)
      [] m = "bvudiv" -> UDiv(a, b)
      [] m = "bvurem" -> URem(a, b)
      \* concrete vectors floor, as Python integers do (pinned by the tests);
      \* the solver backends follow SMT-LIB and truncate
      [] m = "bvsdiv" -> IF be = "c" THEN IF IsZero(b) THEN Ones(Len(a)) ELSE SDivFloor(a, b)
                         ELSE SDivTrunc(a, b)
      [] m = "bvsrem" -> IF be = "c" THEN IF IsZero(b) THEN a ELSE SRemFloor(a, b)
                         ELSE SRemTrunc(a, b)
Cmp(m, a, b) ==
    CASE m = "bveq" -> a = b
      [] m = "bvne" -> a # b
      [] m = "bvult" -> Ult(a, b)
      [] m = "bvule" -> Ule(a, b)
      [] m = "bvugt" -> Ult(b, a)
      [] m = "bvuge" -> Ule(b, a)
      [] m = "bvslt" -> Slt(a, b)
      [] m = "bvsle" -> Sle(a, b)
      [] m = "bvsgt" -> Slt(b, a)
      [] m = "bvsge" -> Sle(b, a)

\* v is the receiver (its backend and type shape the result), b the operand bits
Method(m, v, a, b) ==
    CASE m \in ArithM -> BVal(v.be, v.t, Arith(v.be, m, a, b))
      [] m \in CmpM -> BitVal(v.be, Cmp(m, a, b))
      [] m = "bvcomp" -> BVal(v.be, v.t, <<IF a = b THEN 1 ELSE 0>>)

MethodCall(m, v, x) ==
    LET c == Coerce(v.be, v.w, x) IN IF c.ok THEN Method(m, v, v.b, c.b) ELSE c.err

\* the method an operator stands for
OpMethod(op, signed) ==
    CASE op = "&" -> "bvand"
      [] op = "|" -> "bvor"
      [] op = "^" -> "bvxor"
      [] op = "+" -> "bvadd"
      [] op = "-" -> "bvsub"
      [] op = "*" -> "bvmul"
      [] op = "<<" -> "bvshl"
      [] op = ">>" -> IF signed THEN "bvashr" ELSE "bvlshr"
      [] op = "//" -> IF signed THEN "bvsdiv" ELSE "bvudiv"
      [] op = "%" -> IF signed THEN "bvsrem" ELSE "bvurem"
      [] op = "==" -> "bveq"
      [] op = "!=" -> "bvne"
      [] op = "<" -> IF signed THEN "bvslt" ELSE "bvult"
      [] op = "<=" -> IF signed THEN "bvsle" ELSE "bvule"
      [] op = ">" -> IF signed THEN "bvsgt" ELSE "bvugt"
      [] op = ">=" -> IF signed THEN "bvsge" ELSE "bvuge"

\* == and != on operands nothing can convert are Python's identity comparison
Fallback(op) == CASE op = "==" -> BoolVal(FALSE) [] op = "!=" -> BoolVal(TRUE) [] OTHER -> TypeErr

\* x op y where at least one of them is a vector
Operator(op, x, y) ==
    IF x.k = "bv" /\ y.k = "bv" THEN
        LET signed == SignedT(x.t) \/ (SignedT(y.t) /\ SubT(y.t, x.t))
        IN  MethodCall(OpMethod(op, signed), x, y)
    ELSE
        LET v == IF x.k = "bv" THEN x ELSE y
            o == IF x.k = "bv" THEN y ELSE x
            c == Coerce(v.be, v.w, o)
            m == OpMethod(op, SignedT(v.t))
        IN  IF ~c.ok THEN IF c.err = TypeErr THEN Fallback(op) ELSE c.err
            ELSE IF x.k = "bv" THEN Method(m, v, v.b, c.b)
            ELSE Method(m, v, c.b, v.b)

(***************************************************************************)
(* Structure                                                               *)
(***************************************************************************)
\* a small index arrives as a TLC integer i
GetItem(v, i) ==
    LET j == IF i < 0 THEN i + v.w ELSE i
    IN  IF j < 0 \/ j >= v.w THEN IdxErr ELSE BitVal(v.be, v.b[j + 1] = 1)

\* Python's slice(lo, hi, step).indices(n); absent bounds have has* = 0
SliceIdx(n, sl) ==
    LET step == IF sl.hs = 1 THEN sl.step ELSE 1
        lower == IF step > 0 THEN 0 ELSE -1
        upper == IF step > 0 THEN n ELSE n - 1
        clip(x) == IF x < 0 THEN MaxI(x + n, lower) ELSE MinI(x, upper)
        start == IF sl.hl = 1 THEN clip(sl.lo) ELSE IF step > 0 THEN lower ELSE upper
        stop == IF sl.hh = 1 THEN clip(sl.hi) ELSE IF step > 0 THEN upper ELSE lower
        cnt == IF step > 0 THEN IF stop > start THEN (stop - start + step - 1) \div step ELSE 0
               ELSE IF start > stop THEN (start - stop - step - 1) \div (-step) ELSE 0
    IN  Mk(cnt, LAMBDA i : start + (i - 1) * step)
GetSlice(v, sl) ==
    IF sl.hs = 1 /\ sl.step = 0 THEN ValErr
    ELSE LET idx == SliceIdx(v.w, sl)
         IN  BVal(v.be, v.t, Mk(Len(idx), LAMBDA i : v.b[idx[i] + 1]))

ConcatV(v, x) ==
    \* the argument must belong to the receiver's unsized type
    IF x.k = "bv" /\ x.be = v.be /\ (x.t = v.t \/ SubT(x.t, v.t))
    THEN BVal(v.be, v.t, Concat(v.b, x.b)) ELSE TypeErr

Extend(m, v, n) ==
    IF n < 0 THEN ValErr
    ELSE CASE m = "zext" -> BVal(v.be, v.t, ZExt(v.b, n))
           [] m = "sext" -> BVal(v.be, v.t, SExt(v.b, n))
           [] m = "ext" -> BVal(v.be, v.t, IF SignedT(v.t) THEN SExt(v.b, n) ELSE ZExt(v.b, n))
           [] m = "repeat" -> IF n = 0 THEN ValErr ELSE BVal(v.be, v.t, Repeat(v.b, n))

\* v[i] = x: <<outcome, new bits of v>>
SetItem(v, i, x) ==
    LET okv == x.k \in {"bool", "bit"} \/ (x.k = "int" /\ x.s = 0 /\ x.b \in {<<>>, <<1>>})
        bit == IF x.k = "int" THEN Len(x.b) ELSE IF okv THEN x.b ELSE 0
        j == IF i < 0 THEN i + v.w ELSE i
    IN  IF ~okv THEN <<ValErr, v.b>>
        ELSE IF j < 0 \/ j >= v.w THEN <<IdxErr, v.b>>
        ELSE <<[k |-> "none"], SetBit(v.b, j, bit)>>

Adc(v, x, c) ==
    LET cx == Coerce(v.be, v.w, x)
        cc == Coerce(v.be, 1, c)
        s == AddC(v.b, cx.b, cc.b[1])
    IN  IF ~cx.ok THEN cx.err ELSE IF ~cc.ok THEN cc.err
        ELSE Tup(<<BVal(v.be, v.t, s[2]), BitVal(v.be, s[1] = 1)>>)

\* signed overflow of a + b, judged on the sum modulo 2^w
Overflow(a, b) ==
    LET s == Add(a, b) IN Msb(a) = Msb(b) /\ Msb(s) # Msb(a)

\* value of int(v)
IntOf(v) == IF SignedT(v.t) THEN BVToZS(v.b) ELSE BVToZU(v.b)

\* bits <-> text of binary digits (most significant first)
BinText(b) == FoldRight(LAMBDA bit, acc : acc \o (IF bit = 1 THEN "1" ELSE "0"), b, "")
PyName(t) == CASE t = "BV" -> "BitVector" [] t = "NV" -> "NumVector"
               [] t = "UV" -> "UIntVector" [] t = "SV" -> "SIntVector"
               [] t = "MB" -> "UserVector" [] t = "MU" -> "UserUnsigned" [] t = "MS" -> "UserSigned"

\* bit operators; o is the other operand, left = 1 if it is the left one
BitCoerce(o) ==
    CASE o.k \in {"bit", "bool"} -> Good(<<o.b>>)
      [] o.k = "int" -> IF o.s = 0 /\ o.b \in {<<>>, <<1>>} THEN Good(<<Len(o.b)>>) ELSE Bad(ValErr)
      [] o.k = "truth" -> Good(<<o.b>>)     \* some other object with __bool__
      [] OTHER -> Bad(TypeErr)
BitFn(op, p, q) ==
    CASE op = "&" -> p /\ q
      [] op = "|" -> p \/ q
      [] op = "^" -> p # q
      [] op = "==" -> p = q
      [] op = "!=" -> p # q
BitOp(op, v, o) ==
    LET c == BitCoerce(o)
    IN  IF c.ok THEN BitVal(v.be, BitFn(op, v.b = 1, c.b[1] = 1))
        ELSE IF c.err = TypeErr THEN Fallback(op) ELSE c.err
=============================================================================
