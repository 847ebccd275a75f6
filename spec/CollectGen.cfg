SPECIFICATION Spec
CONSTANTS Ents = {"A", "B", "L"}
 Leaf = "L"
 MaxHints = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
