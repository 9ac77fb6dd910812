SPECIFICATION PSpec
CONSTANTS NR = 8
 MaxLen = 50
 MaxSize = 14
 Focus = "C27"
 Leaves <- LeafSet
INVARIANT PLaws
INVARIANT Emitted
POSTCONDITION Written
CHECK_DEADLOCK FALSE
