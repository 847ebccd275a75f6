SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Keys <- KeysDef
 Changes = 2
INVARIANTS Right NoSecrets
CHECK_DEADLOCK FALSE
