SPECIFICATION Spec
CONSTANTS Edges2 = {"e1", "e2"}
 Lives = {1, 3}
 Delta = 2
 MaxTime = 4
INVARIANTS Margin NoneExpired Stale StaleCollect
CHECK_DEADLOCK FALSE
