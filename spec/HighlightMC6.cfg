SPECIFICATION Spec
CONSTANTS Depth = 6
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
