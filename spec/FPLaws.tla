-------------------------------- MODULE FPLaws --------------------------------
(***************************************************************************)
(* The rounding relation is a function, exact on the format's own values,   *)
(* monotone, symmetric, and the directions bracket the exact value.  For    *)
(* every small format and every n/(den*2^k) up to beyond its largest value. *)
(***************************************************************************)
EXTENDS FP, FiniteSets, TLC
CONSTANTS Es, Ms, Dens
VARIABLES f, n, den, block
\* beyond the largest value, in units of a quarter of the smallest subnormal
UpTo(g) == 2 ^ (2 ^ g.e + g.m + 1)
Modes == {"RNE", "RNA", "RTP", "RTN", "RTZ"}
Init == /\ f \in {g \in [e : Es, m : Ms, ieee : {0, 1}] : g.ieee = 1 \/ g.e > 1}
        /\ n = 0 /\ den \in Dens /\ block \in 0..15
\* (in two steps: TLC computes initial states sequentially)
Next == n = 0 /\ n' \in {i \in 1..UpTo(f) : i % 16 = block} /\ UNCHANGED <<f, den, block>>
Spec == Init /\ [][Next]_<<f, n, den, block>>
\* a unit of a quarter of the smallest subnormal
Unit == Dy(NOne, 1 - Bias(f) - f.m - 2)
X == ExQ(MulD(Dy(FromInt(n), 0), Unit), Dy(FromInt(den), 0))
Mags == {x \in (0..MaxEx(f)) \X (0..2 ^ f.m - 1) : (x[1] = MaxEx(f) => x[2] = 0) /\ (f.ieee = 0 /\ x[1] = 0 => x[2] = 0)}
Res(dir) == {x \in Mags : Rounds(f, dir, X, x[1], FromInt(x[2]))}
The(dir) == CHOOSE x \in Res(dir) : TRUE
MagOf(x) == Mag(f, x[1], FromInt(x[2]))
Leq(x, y) == CmpD(MagOf(x), MagOf(y)) <= 0
Laws == n = 0 \/
    /\ \A dir \in {"near", "naway", "zero", "away"} : Cardinality(Res(dir)) = 1
    /\ LET lo == The("zero")  hi == The("away")  near == The("near")  na == The("naway")
           ex == {x \in Mags : x[1] # MaxEx(f) /\ CmpX(X, MagOf(x)) = 0}
       IN  /\ CmpX(X, MagOf(lo)) >= 0
           /\ hi[1] # MaxEx(f) => CmpX(X, MagOf(hi)) <= 0
           /\ near \in {lo, hi} /\ na \in {lo, hi} /\ Leq(lo, hi)
           /\ (lo = hi) <=> (ex # {})
           /\ ex # {} => lo \in ex
           \* nothing in between
           /\ \A x \in Mags : x = lo \/ x = hi \/ Leq(x, lo) \/ Leq(hi, x)
\* next larger X rounds to a value that is not smaller
Y == ExQ(MulD(Dy(FromInt(n + 1), 0), Unit), Dy(FromInt(den), 0))
Monotone == n = 0 \/ \A dir \in {"near", "naway", "zero", "away"} :
    LET y == CHOOSE x \in Mags : Rounds(f, dir, Y, x[1], FromInt(x[2])) IN Leq(The(dir), y)
\* classification: exactly one class
Patterns == [1..(1 + f.e + f.m) -> {0, 1}]
Classes == n # 0 \/ \A b \in Patterns :
    /\ Cardinality({o \in {"is_zero", "is_subnormal", "is_normal", "is_infinite", "is_NaN"} : Pred(f, o, b)}) = 1
    /\ (Pred(f, "is_negative", b) \/ Pred(f, "is_positive", b)) <=> ~(Pred(f, "is_zero", b) \/ Pred(f, "is_NaN", b)) /\ Val(f, b).s # 2
=============================================================================
