SPECIFICATION Spec
CONSTANTS MaxResps = 1
 Deep = FALSE
INVARIANTS Genuine Governed Agreement
CHECK_DEADLOCK FALSE
