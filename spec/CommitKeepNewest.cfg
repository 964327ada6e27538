SPECIFICATION Spec
CONSTANTS MaxGen = 4
 MaxSeg = 6
 MaxCrash = 2
 KeepNewest = TRUE
 LeaveTorn = FALSE
 DeleteEarly = FALSE
INVARIANTS LastCommitReadable OneOfTheCommits OpeningSucceeds NoGarbage
CHECK_DEADLOCK FALSE
