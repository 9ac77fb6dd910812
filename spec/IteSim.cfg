SPECIFICATION Spec
CONSTANTS NV = 4
 NB = 2
 Len_ = 25
 MaxW = 12
 Be = "c"
 Mode = "sim"
INVARIANT WellTyped
POSTCONDITION Written
CHECK_DEADLOCK FALSE
