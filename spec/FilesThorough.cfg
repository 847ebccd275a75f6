SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Keys <- KeysDef
 Changes = 3
INVARIANTS Right NoSecrets
CHECK_DEADLOCK FALSE
