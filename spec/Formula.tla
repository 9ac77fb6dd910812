-------------------------------- MODULE Formula --------------------------------
(***************************************************************************)
(* Formula trees: [k |-> "and" | "or" | "imp", kids] over leaves            *)
(* [k |-> "leaf", f, s, kids]: an index f into the list of leaf functions   *)
(* and the leaf's own text s.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

RECURSIVE FEval(_, _)
\* av[f] is the truth value of leaf function f under the assignment
FEval(t, av) ==
    CASE t.k = "leaf" -> av[t.f]
      [] t.k = "and" -> \A i \in 1..Len(t.kids) : FEval(t.kids[i], av)
      [] t.k = "or" -> \E i \in 1..Len(t.kids) : FEval(t.kids[i], av)
      [] t.k = "imp" -> FEval(t.kids[1], av) => FEval(t.kids[2], av)

FName(k) == CASE k = "and" -> "And" [] k = "or" -> "Or" [] k = "imp" -> "Implies"

RECURSIVE FDepth(_), FSize(_)
FDepth(t) == IF t.k = "leaf" THEN 0
             ELSE 1 + FoldLeft(LAMBDA acc, s : IF FDepth(s) > acc THEN FDepth(s) ELSE acc, 0, t.kids)
FSize(t) == 1 + FoldLeft(LAMBDA acc, s : acc + FSize(s), 0, t.kids)

RECURSIVE FText(_, _, _)
FText(t, prefix, indent) ==
    IF t.k = "leaf" THEN prefix \o t.s
    ELSE LET sep(i) == IF i = Len(t.kids) THEN "" ELSE ",\n"
             body == FoldLeft(LAMBDA acc, i : acc \o FText(t.kids[i], prefix \o indent, indent) \o sep(i), "",
                              [i \in 1..Len(t.kids) |-> i])
         IN  prefix \o FName(t.k) \o "(\n" \o body \o "\n" \o prefix \o ")"
=============================================================================
