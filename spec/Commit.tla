------------------------------- MODULE Commit -------------------------------
(* The commit protocol of an index directory, file by file: a writer adds
   segments, merges them, deletes what the new commit no longer needs, fails or
   is stopped at any point and is started again; a reader opens meanwhile.
   The directory holds segment files and commit records segments_N, each of
   them absent, partly written or whole.  C06, C07, C09 and C10 as invariants;
   CrashTrace judges the real directories by the same ideas (stages, one of the
   states committed meanwhile, no garbage after a writer opened). *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS MaxGen,        \* commits
          MaxSeg,        \* segments ever written
          MaxCrash,      \* stops and failures
          KeepNewest,    \* a starting writer keeps the newest name instead of the commit it read (the defect repaired)
          LeaveTorn,     \* a failed write of segments_N leaves it behind and goes on to N+1 (the defect repaired)
          DeleteEarly    \* files are deleted before the new commit record is whole
Gens == 0 .. MaxGen
Segs == 1 .. MaxSeg
None == {-1}    \* absent
Part == {-2}    \* partly written
VARIABLES sf,     \* segment -> None, Part or the set of documents it holds
          rec,    \* generation -> None, Part or the set of segments committed
          w,      \* the writer
          hist,   \* contents committed so far, in order
          r,      \* the reader
          ctr,    \* generation -> the segment counter stored with it
          n       \* stops and failures so far
vars == <<sf, rec, w, hist, r, ctr, n>>
Whole(x) == x \notin {None, Part}
Newest == IF \E g \in Gens : rec[g] # None THEN CHOOSE g \in Gens : rec[g] # None /\ \A h \in Gens : rec[h] # None => h <= g ELSE -1
Docs(S) == UNION {sf[x] : x \in S}
Readable(g) == g \in Gens /\ Whole(rec[g]) /\ \A x \in rec[g] : Whole(sf[x])
(* the commit a fresh opening finds when nothing else happens: the newest, or the one before it *)
Found == IF Readable(Newest) THEN Newest ELSE IF Readable(Newest - 1) THEN Newest - 1 ELSE -1
Last(s) == s[Len(s)]

Down == [pc |-> "down", segs |-> {}, gen |-> 0, new |-> 0, seg |-> 0, pend |-> {}, pendr |-> {}]
Init == /\ sf = [x \in Segs |-> None] /\ rec = [g \in Gens |-> IF g = 0 THEN {} ELSE None]
        /\ w = Down /\ hist = <<{}>> /\ n = 0 /\ ctr = [g \in Gens |-> 0]
        /\ r = [pc |-> "idle", gen |-> -1, last |-> -1, retry |-> FALSE, lo |-> 1, left |-> {}, got |-> {}, fb |-> FALSE]

(* ---- the writer ---- *)
WOpen == /\ w.pc = "down" /\ Found >= 0
         /\ LET g == Found
                keep == IF KeepNewest THEN Newest ELSE g
            IN w' = [Down EXCEPT !.pc = "sweep", !.segs = rec[g], !.gen = g, !.new = ctr[g],
                     !.pend = {x \in Segs : sf[x] # None /\ x \notin rec[g]}, !.pendr = {h \in Gens : rec[h] # None /\ h # keep}]
         /\ UNCHANGED <<sf, rec, hist, r, n, ctr>>
Sweep == /\ w.pc \in {"sweep", "clean"}
         /\ \/ \E x \in w.pend : sf' = [sf EXCEPT ![x] = None] /\ w' = [w EXCEPT !.pend = @ \ {x}] /\ UNCHANGED <<rec>>
            \/ \E g \in w.pendr : rec' = [rec EXCEPT ![g] = None] /\ w' = [w EXCEPT !.pendr = @ \ {g}] /\ UNCHANGED sf
            \/ w.pend = {} /\ w.pendr = {} /\ w' = [w EXCEPT !.pc = "ready"] /\ UNCHANGED <<sf, rec, ctr>>
         /\ UNCHANGED <<hist, r, n, ctr>>
(* a new segment: a flushed document, or the merge of all there are *)
Begin(kind) ==
  /\ w.pc = "ready" /\ w.gen < MaxGen
  /\ \E x \in Segs : /\ x = w.new + 1          \* names count up and the counter is part of the commit
                     /\ kind = "merge" => Cardinality(w.segs) > 1
                     /\ sf' = [sf EXCEPT ![x] = Part]
                     /\ w' = [w EXCEPT !.pc = kind, !.seg = x, !.new = x]
  /\ UNCHANGED <<rec, hist, r, n, ctr>>
SegDone ==
  /\ w.pc \in {"flush", "merge"}
  /\ sf' = [sf EXCEPT ![w.seg] = IF w.pc = "flush" THEN {Len(hist) + 100 * n} ELSE Docs(w.segs)]   \* a new document
  /\ w' = [w EXCEPT !.pc = "record", !.segs = IF w.pc = "flush" THEN @ \cup {w.seg} ELSE {w.seg},
                    !.pend = IF w.pc = "flush" THEN {} ELSE w.segs]
  /\ UNCHANGED <<rec, hist, r, n, ctr>>
EarlyDelete == /\ DeleteEarly /\ w.pc \in {"record", "writing"} /\ \E x \in w.pend : sf' = [sf EXCEPT ![x] = None] /\ w' = [w EXCEPT !.pend = @ \ {x}]
               /\ UNCHANGED <<rec, hist, r, n, ctr>>
RecordStart == /\ w.pc = "record" /\ w.gen < MaxGen /\ rec' = [rec EXCEPT ![w.gen + 1] = Part]
               /\ w' = [w EXCEPT !.pc = "writing"] /\ UNCHANGED <<sf, hist, r, n, ctr>>
RecordDone == /\ w.pc = "writing"
              /\ rec' = [rec EXCEPT ![w.gen + 1] = w.segs]
              /\ hist' = Append(hist, Docs(w.segs))
              /\ w' = [w EXCEPT !.pc = "clean", !.gen = @ + 1, !.pendr = {w.gen}]
              /\ ctr' = [ctr EXCEPT ![w.gen + 1] = w.new]
              /\ UNCHANGED <<sf, r, n>>
(* the record cannot be written: an error for the user, who tries again later *)
RecordFails == /\ w.pc = "writing" /\ n < MaxCrash /\ n' = n + 1
               /\ IF LeaveTorn THEN w' = [w EXCEPT !.pc = "record", !.gen = @ + 1] /\ UNCHANGED <<rec>>
                  ELSE rec' = [rec EXCEPT ![w.gen + 1] = None] /\ w' = [w EXCEPT !.pc = "record"]
               /\ UNCHANGED <<sf, hist, r, ctr>>
Stop == /\ w.pc # "down" /\ n < MaxCrash /\ n' = n + 1 /\ w' = Down /\ UNCHANGED <<sf, rec, hist, r, ctr>>
Writer == WOpen \/ Sweep \/ Begin("flush") \/ Begin("merge") \/ SegDone \/ EarlyDelete \/ RecordStart \/ RecordDone \/ RecordFails \/ Stop

(* ---- a reader opening: sis_find_segments_file ---- *)
RStart == /\ r.pc = "idle" /\ r' = [r EXCEPT !.pc = "list", !.lo = Len(hist), !.last = -1, !.retry = FALSE, !.fb = FALSE] /\ UNCHANGED <<sf, rec, w, hist, n, ctr>>
RList == /\ r.pc = "list"
         /\ LET g == Newest IN
            r' = IF g = r.last /\ r.retry THEN [r EXCEPT !.pc = "failed"]
                 ELSE [r EXCEPT !.pc = "read", !.gen = g, !.retry = (g = r.last), !.last = g, !.fb = FALSE]
         /\ UNCHANGED <<sf, rec, w, hist, n, ctr>>
RMiss == IF ~r.retry /\ ~r.fb /\ r.gen > 0 THEN [r EXCEPT !.pc = "read", !.gen = @ - 1, !.fb = TRUE] ELSE [r EXCEPT !.pc = "list"]
RRead == /\ r.pc = "read"
         /\ r' = IF r.gen \in Gens /\ Whole(rec[r.gen]) THEN [r EXCEPT !.pc = "open", !.left = rec[r.gen], !.got = {}] ELSE RMiss
         /\ UNCHANGED <<sf, rec, w, hist, n, ctr>>
ROpen == /\ r.pc = "open"
         /\ IF r.left = {} THEN r' = [r EXCEPT !.pc = "done"]
            ELSE \E x \in r.left : r' = IF Whole(sf[x]) THEN [r EXCEPT !.left = @ \ {x}, !.got = @ \cup sf[x]] ELSE RMiss
         /\ UNCHANGED <<sf, rec, w, hist, n, ctr>>
Reader == RStart \/ RList \/ RRead \/ ROpen
Next == Writer \/ Reader \/ (r.pc = "done" /\ r' = [r EXCEPT !.pc = "idle"] /\ UNCHANGED <<sf, rec, w, hist, n, ctr>>)
Spec == Init /\ [][Next]_vars

(* ---- what must hold ---- *)
LastCommitReadable == Found >= 0 /\ Docs(rec[Found]) = Last(hist)                          \* C06, C09
OneOfTheCommits == r.pc = "done" => \E i \in r.lo .. Len(hist) : r.got = hist[i]           \* C07
OpeningSucceeds == r.pc # "failed"                                                         \* C07
NoGarbage == w.pc = "ready" => /\ {x \in Segs : sf[x] # None} = w.segs /\ {g \in Gens : rec[g] # None} = {w.gen}   \* C10
=============================================================================
