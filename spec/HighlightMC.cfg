SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
