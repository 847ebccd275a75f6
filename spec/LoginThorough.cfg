SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS Current TheUser NoOther Vouched OwnKeys Works
CHECK_DEADLOCK FALSE
