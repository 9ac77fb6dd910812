SPECIFICATION Spec
CONSTANTS Roots <- Two
 Keys = {4, 8}
 MaxClasses = 3
 MaxLen = 1
 Mode = "design"
 Forms = {}
INVARIANT Lattice
CHECK_DEADLOCK FALSE
