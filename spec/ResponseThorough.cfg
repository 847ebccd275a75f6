SPECIFICATION Spec
CONSTANTS MaxResps = 2
 Deep = TRUE
INVARIANTS Genuine Governed Agreement
CHECK_DEADLOCK FALSE
