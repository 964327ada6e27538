SPECIFICATION Spec
CONSTANTS Depth = 5
 Keys = {0, 3, 7}
 What = "queue"
 Gen = TRUE
INVARIANTS LastWins KBest Bounded Emit
CHECK_DEADLOCK FALSE
