---------------------------------- MODULE FP ----------------------------------
(***************************************************************************)
(* Floating point formats and operations.  A format f has e exponent and m  *)
(* mantissa bits, a rounding mode and ieee = 1 (subnormals and NaN) or 0    *)
(* (neither).  Rounding is specified as a relation: r is the value of the   *)
(* format that the mode selects for the exact real result x, where x is     *)
(* given by how it compares with binary fractions.                          *)
(***************************************************************************)
EXTENDS BigNat

\* binary fractions n * 2^x, n a big natural, x an integer
Dy(n, x) == [n |-> n, x |-> x]
DyZero(d) == d.n = <<>>
Top(d) == BitLenN(d.n) + d.x
AlignTo(d, x) == ShlN(d.n, d.x - x)
LoX(a, b) == IF a.x < b.x THEN a.x ELSE b.x
CmpD(a, b) ==
    IF DyZero(a) \/ DyZero(b) THEN (IF DyZero(a) /\ DyZero(b) THEN 0 ELSE IF DyZero(a) THEN -1 ELSE 1)
    ELSE IF Top(a) # Top(b) THEN (IF Top(a) < Top(b) THEN -1 ELSE 1)
    ELSE LET x == LoX(a, b) IN CmpN(AlignTo(a, x), AlignTo(b, x))
AddD(a, b) == IF DyZero(a) THEN b ELSE IF DyZero(b) THEN a
              ELSE LET x == LoX(a, b) IN Dy(AddN(AlignTo(a, x), AlignTo(b, x)), x)
\* a >= b
SubD(a, b) == IF DyZero(b) THEN a ELSE LET x == LoX(a, b) IN Dy(SubN(AlignTo(a, x), AlignTo(b, x)), x)
MulD(a, b) == Dy(MulN(a.n, b.n), a.x + b.x)
HalfD(a) == Dy(a.n, a.x - 1)

(***************************************************************************)
(* Formats.  The magnitude of a finite value is given by its exponent field *)
(* ex (an integer) and its mantissa field man (a big natural).              *)
(***************************************************************************)
Bias(f) == 2 ^ (f.e - 1) - 1
MaxEx(f) == 2 ^ f.e - 1           \* infinities and NaN
Ulp(f, ex) == Dy(NOne, (IF ex = 0 THEN 1 ELSE ex) - Bias(f) - f.m)
MinNormal(f) == Dy(NOne, 1 - Bias(f))
Mag(f, ex, man) == IF ex = 0 THEN Dy(man, 1 - Bias(f) - f.m)
                   ELSE Dy(AddN(ShlN(NOne, f.m), man), ex - Bias(f) - f.m)
IsMax(f, ex, man) == ex = MaxEx(f) - 1 /\ BitLenN(AddN(man, NOne)) = f.m + 1

\* a pattern: sign, exponent, mantissa fields
Fields(f, b) == [s |-> b[f.e + f.m + 1], ex |-> BitsInt(b, f.m + 1, f.m + f.e), man |-> FromBits(SubSeq(b, 1, f.m))]
\* the value a pattern denotes
Val(f, b) ==
    LET p == Fields(f, b)
    IN  IF p.ex = MaxEx(f) THEN (IF p.man = <<>> THEN [k |-> "inf", s |-> p.s] ELSE IF f.ieee = 1 THEN [k |-> "nan", s |-> 0] ELSE [k |-> "inf", s |-> 2])
        ELSE IF p.ex = 0 /\ (p.man = <<>> \/ f.ieee = 0) THEN [k |-> "zero", s |-> p.s]
        ELSE [k |-> "fin", s |-> p.s, d |-> Mag(f, p.ex, p.man)]
\* patterns results may have
WellFormed(f, b) == Len(b) = 1 + f.e + f.m /\ (f.ieee = 1 \/ LET p == Fields(f, b) IN (p.ex # 0 /\ p.ex # MaxEx(f)) \/ p.man = <<>>)

(***************************************************************************)
(* Rounding.  X is an exact positive magnitude: a binary fraction, a        *)
(* quotient or a square root.                                               *)
(***************************************************************************)
ExD(d) == [k |-> "dy", d |-> d, q |-> d]
ExQ(n, q) == [k |-> "quot", d |-> n, q |-> q]
ExR(d) == [k |-> "sqrt", d |-> d, q |-> d]
CmpX(X, d) == CASE X.k = "dy" -> CmpD(X.d, d)
                [] X.k = "quot" -> CmpD(X.d, MulD(d, X.q))
                [] X.k = "sqrt" -> CmpD(X.d, MulD(d, d))

Dir(mode, s) == CASE mode = "RNE" -> "near" [] mode = "RNA" -> "naway" [] mode = "RTZ" -> "zero"
                  [] mode = "RTP" -> IF s = 0 THEN "away" ELSE "zero"
                  [] mode = "RTN" -> IF s = 1 THEN "away" ELSE "zero"
                  [] mode = "RAZ" -> "away"
\* the magnitude (ex, man) of the format f is X rounded in direction dir
Rounds(f, dir, X, ex, man) ==
    LET inf  == ex = MaxEx(f)
        zero == ex = 0 /\ man = <<>>
        max  == IsMax(f, ex, man)
        v    == Mag(f, ex, man)
        up   == IF zero /\ f.ieee = 0 THEN MinNormal(f) ELSE Ulp(f, ex)
        dn   == IF zero THEN up ELSE IF f.ieee = 0 /\ ex = 1 /\ man = <<>> THEN MinNormal(f)
                ELSE IF man = <<>> /\ ex > 1 THEN Ulp(f, ex - 1) ELSE Ulp(f, ex)
        even == EvenN(man)
        \* without subnormals the smallest normal lies next to zero, which wins ties
        evenlo == even /\ ~(f.ieee = 0 /\ ex = 1 /\ man = <<>>)
        lo   == CmpX(X, SubD(v, HalfD(dn)))      \* midpoint below
        hi   == CmpX(X, AddD(v, HalfD(up)))      \* midpoint above
    IN  CASE dir = "near"  -> /\ zero \/ lo > 0 \/ (lo = 0 /\ evenlo)
                              /\ inf \/ hi < 0 \/ (hi = 0 /\ even)
          [] dir = "naway" -> /\ zero \/ lo >= 0
                              /\ inf \/ hi < 0
          [] dir = "zero"  -> /\ ~inf /\ (zero \/ CmpX(X, v) >= 0)
                              /\ max \/ CmpX(X, AddD(v, up)) < 0
          [] dir = "away"  -> /\ ~zero /\ CmpX(X, SubD(v, dn)) > 0
                              /\ inf \/ CmpX(X, v) <= 0

(***************************************************************************)
(* Exact results: NaN, an infinity, a zero or a positive magnitude X with a *)
(* sign; s = 2: either sign.                                                *)
(***************************************************************************)
RNan == [k |-> "nan"]
RInf(s) == [k |-> "inf", s |-> s]
RZero(s) == [k |-> "zero", s |-> s]
RNum(s, X) == [k |-> "num", s |-> s, X |-> X]
RVal(v) == IF v.k = "fin" THEN RNum(v.s, ExD(v.d)) ELSE IF v.k = "nan" THEN RNan ELSE [k |-> v.k, s |-> v.s]

SameSign(s, t) == s = 2 \/ s = t
\* the pattern b of format f is the exact result R rounded in the given mode
Fits(f, mode, R, b) ==
    /\ WellFormed(f, b)
    /\ LET p == Fields(f, b)
           isnan == p.ex = MaxEx(f) /\ p.man # <<>>
           isinf == p.ex = MaxEx(f) /\ p.man = <<>>
       IN  CASE R.k = "nan" -> IF f.ieee = 1 THEN isnan ELSE isinf
             [] R.k = "inf" -> isinf /\ SameSign(R.s, p.s)
             [] R.k = "zero" -> p.ex = 0 /\ p.man = <<>> /\ SameSign(R.s, p.s)
             [] R.k = "num" -> ~isnan /\ p.s = R.s /\ Rounds(f, Dir(mode, R.s), R.X, p.ex, p.man)

Xor(s, t) == IF s = 2 \/ t = 2 THEN 2 ELSE (s + t) % 2
NegV(v) == IF v.k = "nan" \/ v.s = 2 THEN v ELSE [v EXCEPT !.s = 1 - @]
\* the sign of an exact zero sum
ZeroSum(mode) == IF mode = "RTN" THEN 1 ELSE 0
\* the exact sum of signed magnitudes, not both zero terms
SumR(mode, s, x, t, y) ==
    IF s = t THEN RNum(s, ExD(AddD(x, y)))
    ELSE LET c == CmpD(x, y)
         IN  IF c = 0 THEN RZero(ZeroSum(mode)) ELSE IF c > 0 THEN RNum(s, ExD(SubD(x, y))) ELSE RNum(t, ExD(SubD(y, x)))
AddR(mode, a, b) ==
    CASE a.k = "nan" \/ b.k = "nan" -> RNan
      [] a.k = "inf" /\ b.k = "inf" -> IF a.s = b.s THEN RInf(a.s) ELSE RNan
      [] a.k = "inf" -> RInf(a.s)
      [] b.k = "inf" -> RInf(b.s)
      [] a.k = "zero" /\ b.k = "zero" -> RZero(IF a.s = b.s THEN a.s ELSE ZeroSum(mode))
      [] a.k = "zero" -> RVal(b)
      [] b.k = "zero" -> RVal(a)
      [] OTHER -> SumR(mode, a.s, a.d, b.s, b.d)
MulV(a, b) ==
    CASE a.k = "nan" \/ b.k = "nan" -> RNan
      [] (a.k = "inf" /\ b.k = "zero") \/ (a.k = "zero" /\ b.k = "inf") -> RNan
      [] a.k = "inf" \/ b.k = "inf" -> RInf(Xor(a.s, b.s))
      [] a.k = "zero" \/ b.k = "zero" -> RZero(Xor(a.s, b.s))
      [] OTHER -> RNum(Xor(a.s, b.s), ExD(MulD(a.d, b.d)))
DivR(a, b) ==
    CASE a.k = "nan" \/ b.k = "nan" -> RNan
      [] (a.k = "inf" /\ b.k = "inf") \/ (a.k = "zero" /\ b.k = "zero") -> RNan
      [] a.k = "inf" \/ b.k = "zero" -> RInf(Xor(a.s, b.s))
      [] a.k = "zero" \/ b.k = "inf" -> RZero(Xor(a.s, b.s))
      [] OTHER -> RNum(Xor(a.s, b.s), ExQ(a.d, b.d))
FmaR(mode, a, b, c) ==
    LET p == MulV(a, b)
    IN  IF p.k = "num" THEN AddR(mode, [k |-> "fin", s |-> p.s, d |-> p.X.d], c) ELSE AddR(mode, p, c)
SqrtR(a) ==
    CASE a.k = "nan" -> RNan
      [] a.k = "zero" -> RZero(a.s)
      [] a.s = 1 -> RNan
      [] a.k = "inf" -> RInf(0)
      [] OTHER -> RNum(0, ExR(a.d))
\* a - b * (the integer nearest to a/b, the even one in case of a tie)
RemR(a, b) ==
    CASE a.k = "nan" \/ b.k = "nan" \/ a.k = "inf" \/ b.k = "zero" -> RNan
      [] a.k = "zero" -> RZero(a.s)
      [] b.k = "inf" -> RVal(a)
      [] OTHER -> LET x == LoX(a.d, b.d)
                      y == AlignTo(b.d, x)
                      qr == DivMod2(AlignTo(a.d, x), y)
                      c == CmpN(MulSmall(qr[2], 2), y)
                  IN  IF qr[2] = <<>> THEN RZero(a.s)
                      ELSE IF c < 0 \/ (c = 0 /\ qr[1] = 0) THEN RNum(a.s, ExD(Dy(qr[2], x)))
                      ELSE RNum(1 - a.s, ExD(Dy(SubN(y, qr[2]), x)))
\* the integer (big natural) a positive magnitude rounds to
IntOf(dir, d) ==
    IF d.x >= 0 THEN ShlN(d.n, d.x)
    ELSE LET q == ShrN(d.n, -d.x)
             r == SubN(d.n, ShlN(q, -d.x))
             c == CmpN(MulSmall(r, 2), ShlN(NOne, -d.x))
             up == CASE dir = "near" -> c > 0 \/ (c = 0 /\ ~EvenN(q))
                     [] dir = "naway" -> c >= 0
                     [] dir = "zero" -> FALSE
                     [] dir = "away" -> r # <<>>
         IN  IF up THEN AddN(q, NOne) ELSE q
RintR(mode, a) ==
    IF a.k # "fin" THEN RVal(a)
    ELSE LET n == IntOf(Dir(mode, a.s), a.d) IN IF n = <<>> THEN RZero(a.s) ELSE RNum(a.s, ExD(Dy(n, 0)))
\* the exact result of an operation on values
Exact(o, mode, a, b, c) ==
    CASE o = "add" -> AddR(mode, a, b)
      [] o = "sub" -> AddR(mode, a, NegV(b))
      [] o = "mul" -> MulV(a, b)
      [] o = "div" -> DivR(a, b)
      [] o = "fma" -> FmaR(mode, a, b, c)
      [] o = "sqrt" -> SqrtR(a)
      [] o = "rem" -> RemR(a, b)
      [] o = "rint" -> RintR(mode, a)
      [] o = "conv" -> RVal(a)

(***************************************************************************)
(* Order.                                                                   *)
(***************************************************************************)
\* -1, 0, 1, or 2: unordered
CmpV(a, b) ==
    CASE a.k = "nan" \/ b.k = "nan" -> 2
      [] a.k = "zero" /\ b.k = "zero" -> 0
      [] a.k = "zero" -> IF b.s = 1 THEN 1 ELSE -1
      [] b.k = "zero" -> IF a.s = 1 THEN -1 ELSE 1
      [] a.s # b.s -> IF a.s = 1 THEN -1 ELSE 1
      [] a.k = "inf" \/ b.k = "inf" -> LET m == IF a.k = b.k THEN 0 ELSE IF a.k = "inf" THEN 1 ELSE -1
                                       IN  IF a.s = 1 THEN -m ELSE m
      [] OTHER -> LET m == CmpD(a.d, b.d) IN IF a.s = 1 THEN -m ELSE m
CmpHolds(o, c) == CASE o = "eq" -> c = 0 [] o = "ne" -> c # 0 [] o = "lt" -> c = -1 [] o = "leq" -> c \in {-1, 0}
                    [] o = "gt" -> c = 1 [] o = "geq" -> c \in {0, 1}
MinMaxR(o, a, b) ==
    CASE a.k = "nan" -> RVal(b)
      [] b.k = "nan" -> RVal(a)
      [] a.k = "zero" /\ b.k = "zero" -> RZero(IF a.s = b.s THEN a.s ELSE 2)
      [] OTHER -> LET c == CmpV(a, b) IN RVal(IF (c <= 0) = (o = "min") THEN a ELSE b)
Subnormal(f, b) == LET p == Fields(f, b) IN f.ieee = 1 /\ p.ex = 0 /\ p.man # <<>>
Pred(f, o, b) ==
    LET v == Val(f, b)
    IN  CASE o = "is_zero" -> v.k = "zero"
          [] o = "is_infinite" -> v.k = "inf"
          [] o = "is_NaN" -> v.k = "nan"
          [] o = "is_subnormal" -> Subnormal(f, b)
          [] o = "is_normal" -> v.k = "fin" /\ ~Subnormal(f, b)
          [] o = "is_negative" -> v.k \in {"fin", "inf"} /\ v.s = 1
          [] o = "is_positive" -> v.k \in {"fin", "inf"} /\ v.s = 0
=============================================================================
