SPECIFICATION Spec
CONSTANTS Ents = {"a", "b"}
 Anchors = {"t", "u"}
 Copies = TRUE
INVARIANTS OnlyItsOwn
PROPERTIES GivenStays
CHECK_DEADLOCK FALSE
