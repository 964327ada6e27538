------------------------------- MODULE Index -------------------------------
(* The abstract index: what every reader, writer and lock operation means.
   A store holds
     C    the committed documents in the order they were added,
     D    those of them that are deleted,
     P    documents added by the open writer and not yet known to be committed
          (a writer may commit them early, but in order and whole),
     nrm  norms set through readers: <<document, field>> -> byte,
     ver  number of commits that changed the content,
     unc  number of steps that may have committed something unobservable,
     lock holder of the write lock ("" when free).
   A reader holds the slots it presents (document ids; a slot in del presents
   nothing), and the ver/unc of the state it was opened on.  The operators
   below are the actions; IndexMC explores them exhaustively, IndexTrace binds
   them to recorded executions. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NewStore == [C |-> <<>>, D |-> {}, P |-> <<>>, nrm |-> <<>>, ver |-> 0, unc |-> 0, lock |-> ""]
Live(s) == SelectSeq(s.C, LAMBDA d : d \notin s.D)
AddDoc(s, d) == [s EXCEPT !.P = Append(@, d), !.unc = @ + 1]
Flush(s) == IF s.P = <<>> THEN s ELSE [s EXCEPT !.C = @ \o s.P, !.P = <<>>, !.ver = @ + 1]
FlushSome(s, k) == IF k = 0 THEN s ELSE [s EXCEPT !.C = @ \o SubSeq(s.P, 1, k), !.P = SubSeq(@, k + 1, Len(@)), !.ver = @ + 1]
DeleteDocs(s, X) ==   \* delete the documents of X that are there, committing first
  LET t == Flush(s)
      hit == X \cap (ToSet(t.C) \ t.D)
  IN IF hit = {} THEN t ELSE [t EXCEPT !.D = @ \cup hit, !.ver = @ + 1]
Optimize(s) == LET t == Flush(s) IN [t EXCEPT !.C = Live(t), !.D = {}, !.unc = @ + 1]
(* add the documents rs (with the deleted ones rd among them) of other indexes *)
Absorb(s, rs, rd, n) ==
  LET t == Flush(s) IN [t EXCEPT !.C = @ \o rs, !.D = @ \cup rd, !.nrm = n @@ @, !.ver = @ + 1, !.unc = @ + 1]

(* ---- readers ---- *)
(* May slots (0 = deleted) be presented for documents C of which D are deleted?
   All live ones in order; a deleted slot only where a deleted document was. *)
SlotsOk(slots, C, D) ==
  LET lp == SelectSeq([i \in 1 .. Len(slots) |-> i], LAMBDA i : slots[i] # 0)
      lq == SelectSeq([i \in 1 .. Len(C) |-> i], LAMBDA i : C[i] \notin D)
      n == Len(lp)
      p(i) == IF i = 0 THEN 0 ELSE IF i = n + 1 THEN Len(slots) + 1 ELSE lp[i]
      q(i) == IF i = 0 THEN 0 ELSE IF i = n + 1 THEN Len(C) + 1 ELSE lq[i]
  IN /\ Len(lq) = n
     /\ \A i \in 1 .. n : slots[lp[i]] = C[lq[i]]
     /\ \A i \in 1 .. n + 1 : p(i) - p(i - 1) <= q(i) - q(i - 1)
(* the ids behind the slots; where merging made it ambiguous, fresh negative ids *)
Resolve(slots, C, D, fresh) ==
  IF Len(slots) = Len(C) THEN C
  ELSE [i \in 1 .. Len(slots) |-> IF slots[i] # 0 THEN slots[i] ELSE 0 - fresh - i]
DelSlots(slots) == {i \in 1 .. Len(slots) : slots[i] = 0}
NoReader == [open |-> FALSE]
OpenReader(k, s, slots, fresh) ==
  [open |-> TRUE, k |-> k, slots |-> Resolve(slots, s.C, s.D, fresh), del |-> DelSlots(slots), nrm |-> s.nrm,
   ver |-> s.ver, unc |-> s.unc, dirty |-> FALSE, subs |-> <<>>]
View(r) == [i \in 1 .. Len(r.slots) |-> IF i \in r.del THEN 0 ELSE r.slots[i]]
NumDocs(r) == Len(r.slots) - Cardinality(r.del)

CertainlyStale(r, s) == r.ver # s.ver
CertainlyLatest(r, s) == r.ver = s.ver /\ r.unc = s.unc
(* a commit of a modifying reader: its deletions become the store's *)
ReaderCommit(r, s, name) ==
  LET dd == {r.slots[i] : i \in r.del}
      keep == {r.slots[i] : i \in 1 .. Len(r.slots)} \ dd
  IN [s EXCEPT !.D = ((@ \cup {d \in dd : d > 0}) \ keep) \cap ToSet(s.C),
               !.nrm = r.nrm, !.ver = @ + 1, !.lock = IF @ = name THEN "" ELSE @]
=============================================================================
