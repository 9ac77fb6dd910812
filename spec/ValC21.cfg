SPECIFICATION Spec
CONSTANTS NR = 8
 MaxLen = 50
 Focus = "C21"
INVARIANT Inv
POSTCONDITION Written
CHECK_DEADLOCK FALSE
