SPECIFICATION Spec
CONSTANTS NT = 9
 NR = 7
 MaxLen = 50
INVARIANT Typed
POSTCONDITION Written
CHECK_DEADLOCK FALSE
