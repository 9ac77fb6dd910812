SPECIFICATION Spec
CONSTANTS NI = 4
 NV = 2
 NB = 2
 Len_ = 24
INVARIANT WellFormed
POSTCONDITION Written
CHECK_DEADLOCK FALSE
