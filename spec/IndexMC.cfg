SPECIFICATION Spec
CONSTANTS Depth = 0
          Gen = FALSE
          NDoc = 2
          MaxVer = 3
CONSTRAINT Bound
INVARIANT OneHolder HolderIsOpen Distinct Ordered PendingHeld Frozen HolderCurrent
PROPERTY OnlyCommits Refused
CHECK_DEADLOCK FALSE
