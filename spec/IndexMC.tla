------------------------------ MODULE IndexMC ------------------------------
(* Exhaustive exploration of the abstract index: one store, two writers and
   two readers that may try anything at any time.  Checks the model's own
   guarantees (C01, C05, C08) and, as IndexGen, prints every history of Depth
   steps for replay on the real library. *)
EXTENDS Index, Json
CONSTANTS Depth, Gen, NDoc, MaxVer
VARIABLES s, w, r, n, hist, frozen, last
vars == <<s, w, r, n, hist, frozen, last>>
Rs == {1, 2}   Ws == {1, 2}
RN(a) == "r" \o ToString(a)   WN(a) == "w" \o ToString(a)
Log(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
(* generated histories continue after: open a writer, add two documents, close it *)
Init == /\ s = IF Gen THEN [NewStore EXCEPT !.C = <<1, 2>>, !.ver = 1, !.unc = 2] ELSE NewStore
        /\ w = {} /\ r = [a \in Rs |-> NoReader] /\ n = (IF Gen THEN 2 ELSE 0) /\ hist = <<>>
        /\ frozen = [a \in Rs |-> <<>>] /\ last = "ok"
Slots(C, D) == [i \in 1 .. Len(C) |-> IF C[i] \in D THEN 0 ELSE C[i]]
WOpen(a) == /\ a \notin w /\ (Gen => a = 1 \/ s.lock # "")   \* Gen: symmetric cases once
            /\ IF s.lock = "" THEN s' = [s EXCEPT !.lock = WN(a)] /\ w' = w \cup {a} /\ last' = "ok"
               ELSE s' = s /\ w' = w /\ last' = "refused"
            /\ UNCHANGED <<r, n, frozen>> /\ Log(<<"wopen", a, 0>>)
WClose(a) == a \in w /\ w' = w \ {a} /\ s' = [Flush(s) EXCEPT !.lock = ""] /\ UNCHANGED <<r, n, frozen>> /\ last' = "ok" /\ Log(<<"wclose", a, 0>>)
Add(a) == a \in w /\ n < NDoc /\ n' = n + 1 /\ s' = AddDoc(s, n + 1) /\ UNCHANGED <<w, r, frozen>> /\ last' = "ok" /\ Log(<<"add", a, n + 1>>)
Early == /\ ~Gen /\ \E k \in 1 .. Len(s.P) : s' = FlushSome(s, k)     \* the buffer filled up
         /\ UNCHANGED <<w, r, n, hist, frozen>> /\ last' = "ok"
WDel(a, d) == a \in w /\ d <= n /\ s' = DeleteDocs(s, {d}) /\ UNCHANGED <<w, r, n, frozen>> /\ last' = "ok" /\ Log(<<"wdel", a, d>>)
Commit(a) == a \in w /\ s' = Flush(s) /\ UNCHANGED <<w, r, n, frozen>> /\ last' = "ok" /\ Log(<<"commit", a, 0>>)
Opt(a) == a \in w /\ s' = Optimize(s) /\ UNCHANGED <<w, r, n, frozen>> /\ last' = "ok" /\ Log(<<"optimize", a, 0>>)
ROpen(a) == /\ ~r[a].open /\ (Gen => a = 1 \/ r[1].open)
            /\ r' = [r EXCEPT ![a] = OpenReader(1, s, Slots(s.C, s.D), 0)]
            /\ frozen' = [frozen EXCEPT ![a] = View(r'[a])]
            /\ UNCHANGED <<s, w, n>> /\ last' = "ok" /\ Log(<<"ropen", a, 0>>)
RClose(a) == /\ r[a].open /\ r' = [r EXCEPT ![a] = NoReader]
             /\ s' = IF s.lock = RN(a) THEN ReaderCommit(r[a], s, RN(a)) ELSE s
             /\ frozen' = [frozen EXCEPT ![a] = <<>>]
             /\ UNCHANGED <<w, n>> /\ last' = "ok" /\ Log(<<"rclose", a, 0>>)
MayModify(a) == s.lock = RN(a) \/ (s.lock = "" /\ ~CertainlyStale(r[a], s))
SlotOf(a, d) == {i \in 1 .. Len(r[a].slots) : i \notin r[a].del /\ r[a].slots[i] = d}
RDel(a, d) == /\ r[a].open /\ SlotOf(a, d) # {}
              /\ IF MayModify(a)
                 THEN /\ r' = [r EXCEPT ![a].del = @ \cup SlotOf(a, d)] /\ s' = [s EXCEPT !.lock = RN(a)]
                      /\ frozen' = [frozen EXCEPT ![a] = View(r'[a])] /\ last' = "ok"
                 ELSE UNCHANGED <<r, s, frozen>> /\ last' = "refused"
              /\ UNCHANGED <<w, n>> /\ Log(<<"rdel", a, d>>)
Undel(a) == /\ r[a].open
            /\ IF MayModify(a)
               THEN /\ r' = [r EXCEPT ![a].del = {}] /\ s' = [s EXCEPT !.lock = RN(a)]
                    /\ frozen' = [frozen EXCEPT ![a] = View(r'[a])] /\ last' = "ok"
               ELSE UNCHANGED <<r, s, frozen>> /\ last' = "refused"
            /\ UNCHANGED <<w, n>> /\ Log(<<"undel", a, 0>>)
RCommit(a) == /\ r[a].open
              /\ IF s.lock = RN(a)
                 THEN s' = ReaderCommit(r[a], s, RN(a)) /\ r' = [r EXCEPT ![a].ver = s'.ver, ![a].unc = s'.unc]
                 ELSE UNCHANGED <<r, s>>
              /\ UNCHANGED <<w, n, frozen>> /\ last' = "ok" /\ Log(<<"rcommit", a, 0>>)
Next == \/ \E a \in Ws : WOpen(a) \/ WClose(a) \/ Add(a) \/ Commit(a) \/ Opt(a) \/ \E d \in 1 .. NDoc : WDel(a, d)
        \/ Early
        \/ \E a \in Rs : ROpen(a) \/ RClose(a) \/ Undel(a) \/ RCommit(a) \/ \E d \in 1 .. NDoc : RDel(a, d)
Spec == Init /\ [][Next]_vars
Bound == s.ver <= MaxVer /\ s.unc <= MaxVer + 2

(* ---- guarantees of the model ---- *)
OneHolder == Cardinality(w) + Cardinality({a \in Rs : s.lock = RN(a)}) <= 1
HolderIsOpen == s.lock # "" => (\E a \in w : s.lock = WN(a)) \/ (\E a \in Rs : s.lock = RN(a) /\ r[a].open)
Distinct == IsInjective(s.C \o s.P) /\ s.D \subseteq ToSet(s.C)
Ordered == \A i, j \in 1 .. Len(s.C) : i < j => s.C[i] < s.C[j]
PendingHeld == s.P # <<>> => \E a \in w : s.lock = WN(a)
Frozen == \A a \in Rs : r[a].open => View(r[a]) = frozen[a]
HolderCurrent == \A a \in Rs : s.lock = RN(a) => r[a].ver = s.ver
(* only commits change what a new reader would see, and refused attempts change nothing *)
OnlyCommits == [][s'.C # s.C \/ s'.D # s.D => s'.ver > s.ver \/ Live(s') = Live(s)]_vars
Refused == [][last' = "refused" => s' = s]_vars
(* generation *)
Show == ~Gen \/ Len(hist) < Depth \/ (Len(hist) = Depth /\ PrintT(<<"GEN", ToJson(hist)>>))
Short == Len(hist) < Depth
=============================================================================
