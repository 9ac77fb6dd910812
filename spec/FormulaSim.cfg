SPECIFICATION Spec
CONSTANTS NLeaf = 4
 NSteps = 8
 MaxKids = 4
 Sim = TRUE
INVARIANT Laws
POSTCONDITION Written
CHECK_DEADLOCK FALSE
