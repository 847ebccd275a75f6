SPECIFICATION Spec
CONSTANTS
 Names = {"x1", "x2"}
 Ops = {"subset_of", "o1"}
 MaxLen = 2
 Known = {{}, {"x1"}, {"x1", "x2"}}
 KnownOps = {{}, {"o1"}}
INVARIANT Emit
CHECK_DEADLOCK FALSE
