------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size (TLC integers have 32 bits): sequences of    *)
(* digits to base 4096, least significant first, without leading zeros.     *)
(* BigNatLaws checks the operations against TLC's integers.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LB == 12
Base == 4096
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128
             [] k = 8 -> 256 [] k = 9 -> 512 [] k = 10 -> 1024 [] k = 11 -> 2048 [] OTHER -> 2 ^ k
NZero == <<>>
NOne == <<1>>
Ix(n) == [i \in 1..n |-> i]
RECURSIVE Norm(_)
Norm(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE Norm(SubSeq(s, 1, Len(s) - 1))
RECURSIVE FromInt(_)
FromInt(v) == IF v = 0 THEN <<>> ELSE <<v % Base>> \o FromInt(v \div Base)
\* small numbers only
ToInt(a) == FoldRight(LAMBDA d, acc : acc * Base + d, a, 0)
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

AddN(a, b) ==
    LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        r == FoldLeft(LAMBDA acc, i : LET s == Dig(a, i) + Dig(b, i) + acc[1] IN <<s \div Base, Append(acc[2], s % Base)>>, <<0, <<>>>>, Ix(n))
    IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])
\* a >= b
SubN(a, b) ==
    Norm(FoldLeft(LAMBDA acc, i : LET s == a[i] - Dig(b, i) - acc[1]
                                  IN  IF s < 0 THEN <<1, Append(acc[2], s + Base)>> ELSE <<0, Append(acc[2], s)>>, <<0, <<>>>>, Ix(Len(a)))[2])
\* 0 < k <= Base
MulSmall(a, k) ==
    LET r == FoldLeft(LAMBDA acc, d : LET s == d * k + acc[1] IN <<s \div Base, Append(acc[2], s % Base)>>, <<0, <<>>>>, a)
    IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])
MulN(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE FoldRight(LAMBDA d, acc : LET up == IF acc = <<>> THEN acc ELSE <<0>> \o acc
                                   IN  IF d = 0 THEN up ELSE AddN(up, MulSmall(a, d)), b, <<>>)
\* -1, 0, 1
CmpN(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE FoldLeft(LAMBDA c, i : IF a[i] = b[i] THEN c ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, Ix(Len(a)))
RECURSIVE BitLenInt(_)
BitLenInt(v) == IF v = 0 THEN 0 ELSE 1 + BitLenInt(v \div 2)
BitLenN(a) == IF a = <<>> THEN 0 ELSE LB * (Len(a) - 1) + BitLenInt(a[Len(a)])
ShlN(a, k) == IF a = <<>> THEN a
              ELSE LET q == k \div LB  m == IF k % LB = 0 THEN a ELSE MulSmall(a, Pow2(k % LB))
                   IN  IF q = 0 THEN m ELSE SubSeq([i \in 1..q |-> 0], 1, q) \o m
ShrN(a, k) ==
    LET q == k \div LB
        p == Pow2(k % LB)
    IN  IF q >= Len(a) THEN <<>>
        ELSE LET s == SubSeq(a, q + 1, Len(a))
             IN  IF p = 1 THEN s
                 ELSE Norm(FoldRight(LAMBDA d, acc : LET v == acc[1] * Base + d IN <<v % p, <<v \div p>> \o acc[2]>>, s, <<0, <<>>>>)[2])
EvenN(a) == a = <<>> \/ a[1] % 2 = 0
\* little endian bits -> number
BitsInt(b, lo, hi) == FoldRight(LAMBDA bit, acc : 2 * acc + bit, SubSeq(b, lo, hi), 0)
FromBits(b) ==
    LET n == (Len(b) + LB - 1) \div LB
        d == [i \in 1..n |-> BitsInt(b, LB * (i - 1) + 1, IF LB * i < Len(b) THEN LB * i ELSE Len(b))]
    IN  Norm(SubSeq(d, 1, n))
BitAt(a, i) == (Dig(a, (i \div LB) + 1) \div Pow2(i % LB)) % 2       \* bit i, from 0
\* the n lowest bits
ToBits(a, n) == LET d == [i \in 1..n |-> BitAt(a, i - 1)] IN SubSeq(d, 1, n)
\* <<parity of the quotient, remainder>>, b # 0
DivMod2(a, b) ==
    LET n == BitLenN(a)
    IN  FoldLeft(LAMBDA acc, i : LET t == MulSmall(acc[2], 2)
                                     r == IF BitAt(a, n - i) = 1 THEN AddN(t, NOne) ELSE t
                                 IN  IF CmpN(r, b) >= 0 THEN <<1, SubN(r, b)>> ELSE <<0, r>>, <<0, <<>>>>, Ix(n))
=============================================================================
