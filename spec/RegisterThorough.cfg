SPECIFICATION Spec
CONSTANTS MaxReqs = 2
INVARIANTS Genuine Governed Available
CHECK_DEADLOCK FALSE
