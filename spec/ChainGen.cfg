SPECIFICATION Spec
CONSTANTS
 Ents = {"T", "I", "L", "M"}
 Lifetimes = {1}
 MaxTime = 0
 MaxLen = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
