SPECIFICATION Spec
CONSTANTS Es = {1, 2, 3}
 Ms = {1, 2}
 Dens = {1, 3}
INVARIANTS Laws Monotone Classes
CHECK_DEADLOCK FALSE
