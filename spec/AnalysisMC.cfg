SPECIFICATION Spec
CONSTANTS Depth = 4
 Alphabet = {97, 83, 39, 45, 46, 64, 47, 58, 49, 32, 38, 233}
 Gen = TRUE
 U = TRUE
INVARIANTS Faithful Covered HyphenKeeps StopKeeps Emit
CHECK_DEADLOCK FALSE
