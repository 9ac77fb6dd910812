SPECIFICATION Spec
CONSTANTS NR = 7
 MaxLen = 50
 Focus = "props"
INVARIANT Laws
POSTCONDITION Written
CHECK_DEADLOCK FALSE
