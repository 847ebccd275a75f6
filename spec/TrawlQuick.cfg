SPECIFICATION Spec
CONSTANTS
  Auth = {"i", "j", "k"}
  Leaves = {"a"}
INVARIANTS Complete Honest Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
