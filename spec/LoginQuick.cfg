SPECIFICATION Spec
CONSTANTS Deep = FALSE
INVARIANTS Current TheUser NoOther Vouched OwnKeys Works
CHECK_DEADLOCK FALSE
