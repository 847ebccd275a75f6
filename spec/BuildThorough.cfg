SPECIFICATION Spec
CONSTANTS Ents = {"a", "b", "c"}
 Anchors = {"t", "u", "v"}
 Copies = TRUE
INVARIANTS OnlyItsOwn
PROPERTIES GivenStays
CHECK_DEADLOCK FALSE
