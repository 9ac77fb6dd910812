SPECIFICATION Spec
CONSTANTS NV = 3
 NB = 2
 Len_ = 6
 MaxW = 12
 Be = "c"
 Mode = "enum"
INVARIANT WellTyped
POSTCONDITION Written
CHECK_DEADLOCK FALSE
