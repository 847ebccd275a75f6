SPECIFICATION Spec
CONSTANTS Keys = {"k1", "k2"}
 MaxLen = 1
 MaxNow = 1
 Life = 2
INVARIANTS SelfContained Lives
CHECK_DEADLOCK FALSE
