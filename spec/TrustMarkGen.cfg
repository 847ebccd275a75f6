SPECIFICATION Spec
CONSTANTS Exps = {1} MaxNow = 0 MaxMade = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
