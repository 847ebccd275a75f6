SPECIFICATION Spec
CONSTANTS Atoms = {"a", "b"} MaxOps = 3 MaxLen = 2 Superset = "union"
INVARIANTS Sound Idempotent NarrowsOnly LeftAlone NothingLost
CHECK_DEADLOCK FALSE
