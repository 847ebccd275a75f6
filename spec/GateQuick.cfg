SPECIFICATION Spec
CONSTANTS Users = {"u"}
 MaxPages = 2
 MaxCodes = 2
 MaxNow = 160
 Auto = TRUE
 Step = 80
INVARIANTS OnlyVouched OnlyLoggedIn OnlyToAllowed OnlyWhoCame OnlySame Once InTime NoStranger
CHECK_DEADLOCK FALSE
