SPECIFICATION Spec
CONSTANTS Roots <- Two
 Keys = {4, 8}
 MaxClasses = 4
 MaxLen = 3
 Mode = "enum"
 Forms = {"neg"}
POSTCONDITION Written
CHECK_DEADLOCK FALSE
