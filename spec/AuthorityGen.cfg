SPECIFICATION Spec
CONSTANTS Subs = {"s"} MaxOps = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
