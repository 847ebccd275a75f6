SPECIFICATION Spec
CONSTANTS Exps = {0, 1} MaxNow = 2 MaxMade = 3
INVARIANTS NoForgery OnlyFederation OnlyDelegated NothingFromOther NotForOthers
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
