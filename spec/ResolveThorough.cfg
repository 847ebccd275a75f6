SPECIFICATION Spec
CONSTANTS MaxNow = 6 MaxOps = 4
CONSTANT Lives <- Lives3
INVARIANTS Proven Fresh NotOther
CHECK_DEADLOCK FALSE
