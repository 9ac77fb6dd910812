SPECIFICATION Spec
CONSTANTS NR = 8
 MaxLen = 50
 Focus = "C27"
INVARIANT Inv
POSTCONDITION Written
CHECK_DEADLOCK FALSE
