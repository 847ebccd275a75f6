SPECIFICATION Spec
CONSTANTS Edges2 = {"e1", "e2"}
 Lives = {1, 3, 5}
 Delta = 2
 MaxTime = 7
INVARIANTS Margin NoneExpired Stale StaleCollect
CHECK_DEADLOCK FALSE
