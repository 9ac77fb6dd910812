SPECIFICATION Spec
CONSTANTS Kinds = {"A", "B", "C", "D"}
 Names = {"a", "b", "p_0", "p_1", "p_2", "q_0", "V+1", "V+2"}
 Prefixes = {"p", "q"}
 AutoNames = {}
 PrefixNames <- DesignPrefixes
 MaxObjs = 8
 MaxLen = 30
 Mode = "sim"
INVARIANTS Unique Typed
POSTCONDITION Written
CHECK_DEADLOCK FALSE
