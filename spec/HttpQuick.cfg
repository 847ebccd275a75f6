SPECIFICATION Spec
CONSTANTS
  Subs = {"a", "c"}
  Tids = {"1", "2"}
  MaxNow = 2
  MaxMarks = 1
INVARIANTS Answered OnlyRegistered OnlyListed NotOthers OnlyIssued Agree
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
