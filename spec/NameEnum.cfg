SPECIFICATION Spec
CONSTANTS Kinds = {"A", "B"}
 Names = {"a", "p_0"}
 Prefixes = {"p"}
 AutoNames = {}
 PrefixNames <- DesignPrefixes
 MaxObjs = 3
 MaxLen = 3
 Mode = "enum"
INVARIANTS Unique Typed
POSTCONDITION Written
CHECK_DEADLOCK FALSE
