SPECIFICATION SpecEnum
CONSTANTS NV = 3
 NB = 1
 Len_ = 0
 MaxW = 8
 Mix = FALSE
INVARIANT WellFormed
PROPERTY Isolated
POSTCONDITION Written
CHECK_DEADLOCK FALSE
