SPECIFICATION Spec
CONSTANTS Ents = {"A", "B", "C", "L"}
 Leaf = "L"
 MaxHints = 2
INVARIANTS Exact Sound Simple Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
