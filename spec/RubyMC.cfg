SPECIFICATION Spec
CONSTANTS Depth = 3
 Ids = {1, 2}
 Ws = {"a", "b"}
 Kinds = {0, 1, 2}
 Gen = TRUE
INVARIANTS Unique OneDocEach LastAdd Emit
CHECK_DEADLOCK FALSE
