SPECIFICATION Spec
CONSTANTS Vals <- Big
 Ks = {0, 1, 5, 12, 13, 16}
INVARIANT Laws
CHECK_DEADLOCK FALSE
