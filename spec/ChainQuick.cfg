SPECIFICATION Spec
CONSTANTS
 Ents = {"T", "I", "L", "M"}
 Lifetimes = {1}
 MaxTime = 2
 MaxLen = 3
INVARIANTS Anchored NoImpersonation Confined NotExpired AnchorKeysFixed
CHECK_DEADLOCK FALSE
