SPECIFICATION Spec
CONSTANTS Depth = 4
 Keys = {0, 1, 2, 3, 4, 5}
 What = "hash"
 Gen = TRUE
INVARIANTS LastWins KBest Bounded Emit
CHECK_DEADLOCK FALSE
