SPECIFICATION Spec
CONSTANTS Atoms = {"a", "b"} MaxOps = 2 MaxLen = 2 Superset = "union"
INVARIANT Emit
CHECK_DEADLOCK FALSE
