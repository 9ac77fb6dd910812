SPECIFICATION Spec
CONSTANTS NLeaf = 2
 NSteps = 2
 MaxKids = 2
 Sim = FALSE
INVARIANT Laws
POSTCONDITION Written
CHECK_DEADLOCK FALSE
