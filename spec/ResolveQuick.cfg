SPECIFICATION Spec
CONSTANTS MaxNow = 4 MaxOps = 3
CONSTANT Lives <- Lives3
INVARIANTS Proven Fresh NotOther
CHECK_DEADLOCK FALSE
