SPECIFICATION Spec
CONSTANTS Roots <- Chain
 Keys = {0, 1, 4, 8}
 MaxClasses = 10
 MaxLen = 30
 Mode = "sim"
 Forms = {"neg", "float", "str", "none", "tuple", "bigfloat", "bool"}
POSTCONDITION Written

CHECK_DEADLOCK FALSE
