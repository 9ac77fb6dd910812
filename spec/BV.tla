--------------------------------- MODULE BV ---------------------------------
(***************************************************************************)
(* Theory of fixed width bit vectors.  A vector of width n is a sequence   *)
(* of n elements of {0,1}, least significant bit first, so that every      *)
(* width is representable (TLC integers have 32 bits).  The definitions    *)
(* are bit-serial; BVLaws checks them exhaustively against the integer     *)
(* semantics for small widths.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* TLC keeps [i \in 1..n |-> e] lazy; SubSeq evaluates it once.
Force(s) == SubSeq(s, 1, Len(s))
Iota(n) == [i \in 1..n |-> i]
Mk(n, F(_)) == LET f == [i \in 1..n |-> F(i)] IN SubSeq(f, 1, n)

MinI(x, y) == IF x < y THEN x ELSE y
MaxI(x, y) == IF x < y THEN y ELSE x

Zero(n) == Mk(n, LAMBDA i : 0)
Ones(n) == Mk(n, LAMBDA i : 1)
Rep(bit, n) == Mk(n, LAMBDA i : bit)
IsBits(s) == \A i \in 1..Len(s) : s[i] \in {0, 1}
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
IsOnes(a) == \A i \in 1..Len(a) : a[i] = 1
Msb(a) == IF Len(a) = 0 THEN 0 ELSE a[Len(a)]

\* naturals (small) <-> vectors
ToNat(a) == FoldRight(LAMBDA bit, acc : 2 * acc + bit, a, 0)
FromNat(v, n) == FoldLeft(LAMBDA acc, i : <<acc[1] \div 2, Append(acc[2], acc[1] % 2)>>,
                          <<v, <<>>>>, Iota(n))[2]
One(n) == FromNat(1, n)
\* min(value of a, cap): a may be far beyond 2^31
ToNatSat(a, cap) == FoldRight(LAMBDA bit, acc : MinI(2 * acc + bit, cap), a, 0)
\* value of a modulo a small m
ModSmall(a, m) == FoldRight(LAMBDA bit, acc : (2 * acc + bit) % m, a, 0)

\* zero extension / truncation to n bits
Resize(a, n) == Mk(n, LAMBDA i : IF i <= Len(a) THEN a[i] ELSE 0)

BNot(a) == Mk(Len(a), LAMBDA i : 1 - a[i])
BAnd(a, b) == Mk(Len(a), LAMBDA i : a[i] * b[i])
BOr(a, b) == Mk(Len(a), LAMBDA i : MaxI(a[i], b[i]))
BXor(a, b) == Mk(Len(a), LAMBDA i : (a[i] + b[i]) % 2)

\* <<carry out, sum>> of a + b + c
AddC(a, b, c) ==
    FoldLeft(LAMBDA acc, i :
                LET s == a[i] + b[i] + acc[1] IN <<s \div 2, Append(acc[2], s % 2)>>,
             <<c, <<>>>>, Iota(Len(a)))
Add(a, b) == AddC(a, b, 0)[2]
Sub(a, b) == AddC(a, BNot(b), 1)[2]
Neg(a) == AddC(BNot(a), Zero(Len(a)), 1)[2]

\* shifts by a natural number k
Shl(a, k) == Mk(Len(a), LAMBDA i : IF i > k THEN a[i - k] ELSE 0)
Shr(a, k, fill) == Mk(Len(a), LAMBDA i : IF i + k <= Len(a) THEN a[i + k] ELSE fill)
\* rotate left by k in 0..Len(a)-1: bit i of the result is bit i-k of a
RolK(a, k) == LET n == Len(a) IN Mk(n, LAMBDA i : a[((i - 1 - k + n) % n) + 1])
RorK(a, k) == LET n == Len(a) IN Mk(n, LAMBDA i : a[((i - 1 + k) % n) + 1])

\* shifts and rotates by a vector
ShlV(a, b) == Shl(a, ToNatSat(b, Len(a)))
LshrV(a, b) == Shr(a, ToNatSat(b, Len(a)), 0)
AshrV(a, b) == Shr(a, ToNatSat(b, Len(a)), Msb(a))
RolV(a, b) == RolK(a, ModSmall(b, Len(a)))
RorV(a, b) == RorK(a, ModSmall(b, Len(a)))

\* comparisons
Ult(a, b) == FoldLeft(LAMBDA lt, i : IF a[i] = b[i] THEN lt ELSE a[i] < b[i],
                      FALSE, Iota(Len(a)))
Ule(a, b) == ~Ult(b, a)
FlipMsb(a) == IF Len(a) = 0 THEN a ELSE [a EXCEPT ![Len(a)] = 1 - @]
Slt(a, b) == Ult(FlipMsb(a), FlipMsb(b))
Sle(a, b) == ~Slt(b, a)

\* shift-and-add multiplication
Mul(a, b) ==
    FoldLeft(LAMBDA acc, bit : <<IF bit = 1 THEN Add(acc[1], acc[2]) ELSE acc[1], Shl(acc[2], 1)>>,
             <<Zero(Len(a)), a>>, b)[1]

\* restoring division, b # 0; <<quotient, remainder>>.  The partial remainder
\* has one extra bit so that doubling it cannot overflow.
UDivRem(a, b) ==
    LET n == Len(a)
        bx == Append(b, 0)
        step(acc, i) ==
            LET r == <<a[i]>> \o SubSeq(acc[2], 1, n)
                ge == ~Ult(r, bx)
            IN  <<<<IF ge THEN 1 ELSE 0>> \o acc[1], IF ge THEN Sub(r, bx) ELSE r>>
        res == FoldRight(LAMBDA i, acc : step(acc, i), Iota(n), <<<<>>, Zero(n + 1)>>)
    IN  <<res[1], SubSeq(res[2], 1, n)>>

\* SMT-LIB: division by zero is all ones, remainder by zero is the dividend
UDiv(a, b) == IF IsZero(b) THEN Ones(Len(a)) ELSE UDivRem(a, b)[1]
URem(a, b) == IF IsZero(b) THEN a ELSE UDivRem(a, b)[2]

Abs(a) == IF Msb(a) = 1 THEN Neg(a) ELSE a
\* SMT-LIB bvsdiv / bvsrem: truncation towards zero
SDivTrunc(a, b) ==
    LET q == UDiv(Abs(a), Abs(b)) IN IF Msb(a) # Msb(b) THEN Neg(q) ELSE q
SRemTrunc(a, b) ==
    LET r == URem(Abs(a), Abs(b)) IN IF Msb(a) = 1 THEN Neg(r) ELSE r
\* floored division, the meaning of // and % on Python integers; b # 0
SRemFloor(a, b) ==
    LET r == SRemTrunc(a, b)
    IN  IF IsZero(r) \/ Msb(r) = Msb(b) THEN r ELSE Add(r, b)
SDivFloor(a, b) ==
    LET q == SDivTrunc(a, b)
        r == SRemTrunc(a, b)
    IN  IF IsZero(r) \/ Msb(r) = Msb(b) THEN q ELSE Sub(q, One(Len(a)))

Concat(a, b) == a \o b
\* bits lo .. hi-1 (0 based)
Slice(a, lo, hi) == SubSeq(a, lo + 1, hi)
ZExt(a, n) == a \o Zero(n)
SExt(a, n) == a \o Rep(Msb(a), n)
Repeat(a, n) == FoldLeft(LAMBDA acc, i : acc \o a, <<>>, Iota(n))
SetBit(a, i, bit) == [a EXCEPT ![i + 1] = bit]

(***************************************************************************)
(* Unbounded integers: sign and magnitude, canonical (magnitude has no     *)
(* leading zeros, zero is non-negative).                                   *)
(***************************************************************************)
Trim(m) ==
    LET top == FoldLeft(LAMBDA acc, i : IF m[i] = 1 THEN i ELSE acc, 0, Iota(Len(m)))
    IN  SubSeq(m, 1, top)
ZInt(s, m) == LET t == Trim(m) IN [s |-> IF t = <<>> THEN 0 ELSE s, b |-> t]
ZOfNat(v) == ZInt(0, FromNat(v, 31))
ZOfInt(v) == IF v < 0 THEN ZInt(1, FromNat(-v, 31)) ELSE ZInt(0, FromNat(v, 31))
\* the integer z modulo 2^n, as a vector
ZToBV(z, n) == LET m == Resize(z.b, n) IN IF z.s = 1 THEN Neg(m) ELSE m
BVToZU(a) == ZInt(0, a)
BVToZS(a) == IF Msb(a) = 1 THEN ZInt(1, Neg(a)) ELSE ZInt(0, a)
\* sign extension of z to a two's complement vector wide enough to hold it
ZBits(z, n) == ZToBV(z, n)
ZLt(x, y) ==
    LET n == MaxI(Len(x.b), Len(y.b)) + 1 IN Slt(ZToBV(x, n), ZToBV(y, n))
ZEq(x, y) == x.s = y.s /\ x.b = y.b
ZWide(x, y) == MaxI(Len(x.b), Len(y.b)) + 2
ZAdd(x, y) == LET n == ZWide(x, y) IN BVToZS(Add(ZToBV(x, n), ZToBV(y, n)))
ZSub(x, y) == LET n == ZWide(x, y) IN BVToZS(Sub(ZToBV(x, n), ZToBV(y, n)))
ZNeg(x) == ZInt(1 - x.s, x.b)
ZMul(x, y) ==
    LET n == Len(x.b) + Len(y.b) + 1
    IN  ZInt((x.s + y.s) % 2, Mul(Resize(x.b, n), Resize(y.b, n)))
ZMagDivRem(x, y) ==
    LET n == MaxI(Len(x.b), Len(y.b)) IN UDivRem(Resize(x.b, n), Resize(y.b, n))
\* SMT-LIB Ints div: x = y*q + r with 0 <= r < |y|; y # 0
ZDivE(x, y) ==
    LET qr == ZMagDivRem(x, y)
        q == IF x.s = 0 \/ IsZero(qr[2]) THEN ZInt(0, qr[1])
             ELSE ZAdd(ZInt(0, qr[1]), ZOfNat(1))
    IN  IF x.s = y.s THEN q ELSE ZNeg(q)
=============================================================================
