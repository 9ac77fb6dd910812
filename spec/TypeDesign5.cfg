SPECIFICATION Spec
CONSTANTS Roots <- Two
 Keys = {4, 8}
 MaxClasses = 4
 MaxLen = 1
 Mode = "design"
 Forms = {}
INVARIANT Lattice
CHECK_DEADLOCK FALSE
