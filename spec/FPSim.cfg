SPECIFICATION Spec
CONSTANTS NF = 4
 NR = 6
 MaxLen = 40
 Lits = {"bits", "int", "float", "dec", "frac", "special", "edge"}
INVARIANT Typed
POSTCONDITION Written
CHECK_DEADLOCK FALSE
