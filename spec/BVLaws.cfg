CONSTANT MaxWidth = 4
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
