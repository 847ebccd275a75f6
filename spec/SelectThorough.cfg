SPECIFICATION Spec
CONSTANTS Anchors = {"t", "u", "v"} Subs = {"a"} Lens = {1, 2} MaxSaves = 2 MaxChains = 3 Exps = {1}
INVARIANTS Unique Choice Consistent
PROPERTIES Lasting Refines Last
CHECK_DEADLOCK FALSE
