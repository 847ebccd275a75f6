SPECIFICATION Spec
CONSTANTS Atoms = {"a", "b", "c"} MaxOps = 1 MaxLen = 4 Superset = "union"
INVARIANTS Sound Idempotent NarrowsOnly LeftAlone NothingLost
CHECK_DEADLOCK FALSE
