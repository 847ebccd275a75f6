SPECIFICATION Spec
CONSTANTS MaxReqs = 3
INVARIANTS Genuine Untouched Governed
PROPERTIES Stays
CHECK_DEADLOCK FALSE
