SPECIFICATION Spec
CONSTANTS NR = 7
 MaxLen = 3
 Focus = "pairs"
INVARIANT Laws
POSTCONDITION Written
CHECK_DEADLOCK FALSE
