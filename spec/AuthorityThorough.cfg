SPECIFICATION Spec
CONSTANTS Subs = {"s", "r"} MaxOps = 3
INVARIANTS Vouch Filters Everyone Reach
CHECK_DEADLOCK FALSE
