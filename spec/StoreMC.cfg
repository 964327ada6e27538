SPECIFICATION Spec
CONSTANTS Depth = 3
 Sizes = {0, 1, 1014, 1015, 1023, 1024, 1025, 2048}
 Gen = TRUE
INVARIANTS ReadsBack EndsThere Emit
CHECK_DEADLOCK FALSE
