----------------------------- MODULE BigNatLaws -----------------------------
EXTENDS BigNat, TLC
CONSTANTS Vals, Ks
VARIABLES a, b, k
Big == {0, 1, 2, 3, 4095, 4096, 4097, 8191, 12345, 16777215, 16777216}
Init == a \in Vals /\ b \in Vals /\ k \in Ks
Next == UNCHANGED <<a, b, k>>
Spec == Init /\ [][Next]_<<a, b, k>>
A == FromInt(a)
B == FromInt(b)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Laws == /\ ToInt(A) = a
        /\ ToInt(AddN(A, B)) = a + b
        /\ a >= b => SubN(A, B) = FromInt(a - b)
        /\ CmpN(A, B) = Sgn(a - b)
        /\ a <= 4097 /\ b <= 12345 => MulN(A, B) = FromInt(a * b)
        /\ a <= 12345 => ShlN(A, k) = FromInt(a * 2 ^ k)
        /\ ShrN(A, k) = FromInt(a \div 2 ^ k)
        /\ FromBits(ToBits(A, 30)) = A
        /\ EvenN(A) <=> a % 2 = 0
        /\ BitLenN(A) = BitLenInt(a)
        /\ b > 0 => DivMod2(A, B) = <<(a \div b) % 2, FromInt(a % b)>>
=============================================================================
