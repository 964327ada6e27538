SPECIFICATION Spec
CONSTANTS MaxGen = 5
 MaxSeg = 8
 MaxCrash = 3
 KeepNewest = FALSE
 LeaveTorn = FALSE
 DeleteEarly = FALSE
INVARIANTS LastCommitReadable OneOfTheCommits OpeningSucceeds NoGarbage
CHECK_DEADLOCK FALSE
