SPECIFICATION Spec
CONSTANTS Depth = 4
 Sizes = {1, 1014, 1023, 1024}
 Gen = TRUE
INVARIANTS ReadsBack EndsThere Emit
CHECK_DEADLOCK FALSE
