SPECIFICATION Spec
CONSTANTS MaxReqs = 1
INVARIANTS Genuine Governed Available
CHECK_DEADLOCK FALSE
