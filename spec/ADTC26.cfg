SPECIFICATION Spec
CONSTANTS NR = 8
 MaxLen = 50
 MaxSize = 14
 Focus = "C26"
 Leaves <- LeafSet
INVARIANT Laws
POSTCONDITION Written
CHECK_DEADLOCK FALSE
