SPECIFICATION SpecSim
CONSTANTS NV = 5
 NB = 2
 Len_ = 40
 MaxW = 40
 Mix = TRUE
INVARIANT WellFormed
PROPERTY Isolated
POSTCONDITION Written
CHECK_DEADLOCK FALSE
