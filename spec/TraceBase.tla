----------------------------- MODULE TraceBase -----------------------------
(* Trace validation shared by all specifications.  A trace file holds one
   episode per line: [id, ev : Seq(event), ...].  Every episode is an initial
   state, so TLC's workers judge episodes in parallel.  The judging module
   supplies  EpInit(ep)  (the specification state an episode starts in) and
   Judge(e, s, ep) = [ok, s, exp] : is event e (call and observed result) a
   step the specification allows in state s, what state it leads to, and what
   the specification expected.  A rejected event is printed and ends its
   episode; the check counts the states to be sure nothing was skipped. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions

Episodes == ndJsonDeserialize(IOEnv.TRACE_FILE)

Ok(s) == [ok |-> TRUE, s |-> s, exp |-> ""]
Reject(s, exp) == [ok |-> FALSE, s |-> s, exp |-> exp]
Expect(cond, s, exp) == [ok |-> cond, s |-> s, exp |-> exp]
Has(e, f) == f \in DOMAIN e

VARIABLES ep, l, st, status
tvars == <<ep, l, st, status>>
(* The transition relation.  A judging module ends with
     Init == Start /\ st = EpInit(Episodes[ep])
     Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
     Spec == Init /\ [][Next]_tvars
   An event that raised an error (err # "") is only acceptable where the event
   admits it (field mayerr); one that killed or hung the process never is. *)
Start == ep \in 1 .. Len(Episodes) /\ l = 1 /\ status = "run"
More == status = "run" /\ l <= Len(Episodes[ep].ev)
Ev == Episodes[ep].ev[l]
Fatal(e) == e.op = "crash" \/ (e.err # "" /\ e.err # "nohandle" /\ ~Has(e, "mayerr"))
FatalVerdict(e, s) == Reject(s, IF e.op = "crash" THEN "no behaviour of the specification kills or hangs the process"
                                ELSE "this operation does not fail here")
Step(j) == /\ ep' = ep
           /\ IF j.ok THEN st' = j.s /\ l' = l + 1 /\ status' = "run"
              ELSE st' = st /\ l' = l /\ status' = "rejected" /\ PrintT(<<"REJECT", ep, l, j.exp>>)
=============================================================================
