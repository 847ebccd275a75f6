SPECIFICATION Spec
CONSTANTS
  Auth = {"i", "j", "k"}
  Leaves = {"a", "b"}
INVARIANTS Complete Honest Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
