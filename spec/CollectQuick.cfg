SPECIFICATION Spec
CONSTANTS Ents = {"A", "B", "L"}
 Leaf = "L"
 MaxHints = 3
INVARIANTS Exact Sound Simple Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
