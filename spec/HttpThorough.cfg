SPECIFICATION Spec
CONSTANTS
  Subs = {"a", "b", "c"}
  Tids = {"1", "2"}
  MaxNow = 2
  MaxMarks = 2
INVARIANTS Answered OnlyRegistered OnlyListed NotOthers OnlyIssued Agree
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
