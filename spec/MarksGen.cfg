SPECIFICATION Spec
CONSTANTS Ids = {"a", "b"} Subs = {"x", "y"} Ticks = {1, 5} MaxOps = 4
CONSTANT Lives <- MCLives
INVARIANT Emit
CHECK_DEADLOCK FALSE
