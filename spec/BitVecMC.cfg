SPECIFICATION Spec
CONSTANTS Bits = {0, 31, 32, 255} Depth = 3 Gen = TRUE
INVARIANT Algebra Emit
CHECK_DEADLOCK FALSE
