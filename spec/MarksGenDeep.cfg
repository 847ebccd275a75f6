SPECIFICATION Spec
CONSTANTS Ids = {"a", "b"} Subs = {"x", "y"} Ticks = {1, 5} MaxOps = 5
CONSTANT Lives <- MCLives
INVARIANT Emit
CHECK_DEADLOCK FALSE
