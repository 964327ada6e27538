SPECIFICATION Spec
CONSTANTS Depth = 6
          Gen = TRUE
          NDoc = 3
          MaxVer = 99
CONSTRAINT Short
INVARIANT Show
CHECK_DEADLOCK FALSE
