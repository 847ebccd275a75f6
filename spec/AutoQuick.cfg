SPECIFICATION Spec
CONSTANTS MaxReqs = 1
INVARIANTS Genuine Untouched Governed
PROPERTIES Stays
CHECK_DEADLOCK FALSE
