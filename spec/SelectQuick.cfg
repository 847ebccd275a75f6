SPECIFICATION Spec
CONSTANTS Anchors = {"t", "u"} Subs = {"a", "b"} Lens = {1, 2} MaxSaves = 2 MaxChains = 2 Exps = {1, 2}
INVARIANTS Unique Choice Consistent
PROPERTIES Lasting Refines Last
CHECK_DEADLOCK FALSE
