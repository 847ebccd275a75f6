SPECIFICATION Spec
CONSTANTS Exps = {1} MaxNow = 2 MaxMade = 2
INVARIANTS NoForgery OnlyFederation OnlyDelegated NothingFromOther NotForOthers
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
