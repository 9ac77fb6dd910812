------------------------------- MODULE BVLaws -------------------------------
(***************************************************************************)
(* Exhaustive check, for every pair of vectors of every width up to        *)
(* MaxWidth, that the bit-serial theory of BV agrees with the integers     *)
(* modulo 2^n, and that the algebraic laws users rely on follow from it.   *)
(* One state per <<width, a, b>>.                                          *)
(***************************************************************************)
EXTENDS BV, TLC
CONSTANT MaxWidth
VARIABLES a, b

Vec(n) == [1..n -> {0, 1}]
Init == \E n \in 1..MaxWidth : a \in Vec(n) /\ b \in Vec(n)
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

n == Len(a)
P == 2^n
A == ToNat(a)
B == ToNat(b)
SA == IF A >= P \div 2 THEN A - P ELSE A
SB == IF B >= P \div 2 THEN B - P ELSE B
Is(v, x) == Len(v) = n /\ IsBits(v) /\ ToNat(v) = x % P

AbsI(x) == IF x < 0 THEN -x ELSE x
\* TLA+ \div is floored
TruncDiv(x, y) == IF (x < 0) = (y < 0) THEN AbsI(x) \div AbsI(y) ELSE -(AbsI(x) \div AbsI(y))
FloorDiv(x, y) == IF y > 0 THEN x \div y ELSE (-x) \div (-y)

ArithOk ==
    /\ FromNat(A, n) = a
    /\ Is(Add(a, b), A + B) /\ Is(Sub(a, b), A - B) /\ Is(Mul(a, b), A * B) /\ Is(Neg(a), -A)
    /\ \A c \in {0, 1} : ToNat(AddC(a, b, c)[2]) + P * AddC(a, b, c)[1] = A + B + c
DivOk ==
    /\ B # 0 => /\ Is(UDiv(a, b), A \div B) /\ Is(URem(a, b), A % B)
                /\ Is(SDivTrunc(a, b), TruncDiv(SA, SB))
                /\ Is(SRemTrunc(a, b), SA - SB * TruncDiv(SA, SB))
                /\ Is(SDivFloor(a, b), FloorDiv(SA, SB))
                /\ Is(SRemFloor(a, b), SA - SB * FloorDiv(SA, SB))
    /\ B = 0 => /\ Is(UDiv(a, b), P - 1) /\ Is(URem(a, b), A)
                /\ Is(SRemTrunc(a, b), A)
                /\ Is(SDivTrunc(a, b), IF SA < 0 THEN 1 ELSE P - 1)
    /\ Add(Mul(UDiv(a, b), b), URem(a, b)) = a
    /\ Add(Mul(SDivTrunc(a, b), b), SRemTrunc(a, b)) = a
CmpOk ==
    /\ Ult(a, b) = (A < B) /\ Ule(a, b) = (A <= B)
    /\ Slt(a, b) = (SA < SB) /\ Sle(a, b) = (SA <= SB)
BitOk ==
    /\ Is(BNot(a), P - 1 - A)
    /\ BNot(BAnd(a, b)) = BOr(BNot(a), BNot(b))
    /\ BXor(a, b) = BOr(BAnd(a, BNot(b)), BAnd(BNot(a), b))
    /\ ToNat(BAnd(a, b)) + ToNat(BOr(a, b)) = A + B
    /\ BXor(BXor(a, b), b) = a
ShiftOk ==
    /\ Is(ShlV(a, b), A * 2^MinI(B, 20)) /\ Is(LshrV(a, b), A \div 2^MinI(B, 20))
    /\ Is(AshrV(a, b), SA \div 2^MinI(B, 20))
    /\ RorV(RolV(a, b), b) = a
    /\ RolV(a, b) = BOr(ShlV(a, FromNat(B % n, n)),
                        LshrV(a, FromNat(IF B % n = 0 THEN n ELSE n - (B % n), n + 4)))
ShapeOk ==
    /\ ToNat(Concat(a, b)) = A + P * B
    /\ \A k \in 0..3 : /\ ToNat(ZExt(a, k)) = A
                       /\ ToNat(SExt(a, k)) = SA % (P * 2^k)
                       /\ Repeat(a, k) = FoldLeft(LAMBDA acc, i : acc \o a, <<>>, Iota(k))
    /\ \A lo \in 0..n : \A hi \in lo..n : ToNat(Slice(a, lo, hi)) = (A \div 2^lo) % 2^(hi - lo)
    /\ \A lo \in 0..n : Concat(Slice(a, 0, lo), Slice(a, lo, n)) = a
ZVal(z) == IF z.s = 1 THEN -ToNat(z.b) ELSE ToNat(z.b)
ZOk ==
    LET x == BVToZS(a)
        y == BVToZS(b)
    IN  /\ ZVal(x) = SA /\ ZVal(BVToZU(a)) = A
        /\ ZToBV(x, n) = a /\ ZToBV(BVToZU(a), n) = a
        /\ ZVal(ZAdd(x, y)) = SA + SB /\ ZVal(ZSub(x, y)) = SA - SB /\ ZVal(ZMul(x, y)) = SA * SB
        /\ ZLt(x, y) = (SA < SB) /\ ZEq(x, y) = (SA = SB) /\ ZVal(ZNeg(x)) = -SA
        /\ SB # 0 => LET q == ZVal(ZDivE(x, y)) IN
                        0 <= SA - SB * q /\ SA - SB * q < AbsI(SB)
        /\ ZOfInt(SA) = x
Laws == ArithOk /\ DivOk /\ CmpOk /\ BitOk /\ ShiftOk /\ ShapeOk /\ ZOk
=============================================================================
