------------------------------ MODULE TypeTheory ------------------------------
(***************************************************************************)
(* Sized type families (bit vectors by width, floating point by format).    *)
(* A class table cls maps a class to its list of bases; a type is <<c>> (a  *)
(* class itself) or <<c, k>> (the class c indexed by k).  A class is open   *)
(* (can be indexed) iff no base has a size.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NoSize == -1
Fail == <<<<0>>>>
RECURSIVE Sizes(_, _)
\* the sizes a type or the bases of a class bring along
Sizes(cls, T) == IF Len(T) = 2 THEN {T[2]}
                 ELSE UNION {Sizes(cls, cls[T[1]][i]) : i \in 1..Len(cls[T[1]])}
Size(cls, T) == LET s == Sizes(cls, T) IN IF s = {} THEN NoSize ELSE CHOOSE k \in s : TRUE
Open(cls, c) == Sizes(cls, <<c>>) = {}
BaseSizes(cls, bs) == UNION {Sizes(cls, bs[i]) : i \in 1..Len(bs)}

\* direct bases of a type: an indexed class extends the class and its bases indexed alike
Bases(cls, T) ==
    IF Len(T) = 1 THEN cls[T[1]]
    ELSE <<<<T[1]>>>> \o [i \in 1..Len(cls[T[1]]) |-> <<cls[T[1]][i][1], T[2]>>]

\* all supertypes, as the documentation defines them: T[k] is below T and S[k] for every S above T
RECURSIVE ClassSup(_, _)
ClassSup(cls, c) == {<<c>>} \cup UNION {LET b == cls[c][i]
                                         IN IF Len(b) = 1 THEN ClassSup(cls, b[1])
                                            ELSE LET s == ClassSup(cls, b[1]) IN s \cup {<<t[1], b[2]>> : t \in s}
                                        : i \in 1..Len(cls[c])}
Sup(cls, T) == LET s == ClassSup(cls, T[1])
               IN IF Len(T) = 1 THEN s ELSE s \cup {<<t[1], T[2]>> : t \in s}
Subtype(cls, T, U) == U \in Sup(cls, T)

\* Python's linearisation of the bases; Fail when there is none
RECURSIVE Merge(_)
Merge(ss) ==
    LET q == SelectSeq(ss, LAMBDA s : s # <<>>)
        ok(i) == \A j \in 1..Len(q) : Head(q[i]) \notin Range(Tail(q[j]))
        good == {i \in 1..Len(q) : ok(i)}
    IN  IF q = <<>> THEN <<>>
        ELSE IF good = {} THEN Fail
        ELSE LET h == Head(q[CHOOSE i \in good : \A j \in good : i <= j])
                 r == Merge([i \in 1..Len(q) |-> IF Head(q[i]) = h THEN Tail(q[i]) ELSE q[i]])
             IN  IF r = Fail THEN r ELSE <<h>> \o r
RECURSIVE Lin(_, _)
LinOf(cls, bs) ==
    LET ls == [i \in 1..Len(bs) |-> Lin(cls, bs[i])]
    IN  IF \E i \in 1..Len(ls) : ls[i] = Fail THEN Fail ELSE Merge(ls \o <<bs>>)
Lin(cls, T) == LET r == LinOf(cls, Bases(cls, T)) IN IF r = Fail THEN r ELSE <<T>> \o r

\* a class with these bases can be defined
Definable(cls, bs) == Cardinality(BaseSizes(cls, bs)) <= 1 /\ LinOf(cls, bs) # Fail
\* types kept alive by the type T
Keeps(cls, T) == Sup(cls, T)
=============================================================================
