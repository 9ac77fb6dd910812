CONSTANT MaxWidth = 6
SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
