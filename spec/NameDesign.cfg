SPECIFICATION Spec
CONSTANTS Kinds = {"bit"}
 Names = {"a", "p_0"}
 Prefixes = {"p"}
 AutoNames = {"V_0", "V_1", "a"}
 PrefixNames <- DesignPrefixes
 MaxObjs = 3
 MaxLen = 1
 Mode = "design"
INVARIANTS Unique Typed
CHECK_DEADLOCK FALSE
