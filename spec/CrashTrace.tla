----------------------------- MODULE CrashTrace -----------------------------
(* Judges what an index directory holds while, after and although things happen
   to it (C06, C07, C09, C10): after every single change an operation makes to a
   file (the process may stop there), when a call that changes a file fails, and
   when a reader opens while another process is writing.
   A content is [ids, sigs, err] : the live documents in order, a digest of all
   that is known of each (fields, terms, positions, vectors, norms), or the error
   met when opening and reading.  Every operation has a chain of contents (its
   stages): what it may commit, in this order.  *)
EXTENDS TraceBase, Index

Put(f, k, v) == (k :> v) @@ f
EpInit(E) == [S |-> <<>>, sig |-> <<>>, R |-> <<>>, W |-> <<>>, fg |-> <<>>]
ZZ == 999999        \* the document a later writer adds
Asp(E, a) == a \in ToSet(E.asp)

(* ---- stages: the contents operation o may leave behind, in order ---- *)
KOf(o, s) == IF o.op \in {"rcommit", "rclose"} THEN s.R[o.a].k ELSE IF o.op = "wopen" THEN o.k ELSE s.W[o.a]
Views(o, s) == FlattenSeq([i \in 1 .. Len(o.rs) |-> s.R[o.rs[i]].view])
Start0(o, S) == IF o.op = "add" THEN AddDoc(S, o.d) ELSE S
Partly(S) == [j \in 1 .. Len(S.P) + 1 |-> Live(FlushSome(S, j - 1))]
Whole(o, s, S) ==     \* the state after the operation succeeded, for operations that commit
  CASE o.op \in {"commit", "wclose"} -> Flush(S)
    [] o.op = "optimize" -> Optimize(S)
    [] o.op = "wdel" -> DeleteDocs(S, ToSet(o.d))
    [] o.op = "addreaders" -> Absorb(S, Views(o, s), {}, <<>>)
    [] o.op \in {"rcommit", "rclose"} ->
         IF s.R[o.a].dirty THEN [S EXCEPT !.D = ToSet(S.C) \ ToSet(s.R[o.a].view)] ELSE S
    [] OTHER -> S
Commits(o) == o.op \in {"commit", "wclose", "optimize", "wdel", "addreaders", "rcommit", "rclose"}
Stages(o, s, S) == Partly(S) \o IF o.op \in {"wdel", "addreaders", "rcommit", "rclose"} THEN <<Live(Whole(o, s, S))>> ELSE <<>>
(* the state an operation left, given the content seen afterwards *)
Left(o, s, S, ids) ==
  IF Commits(o) THEN Whole(o, s, S)
  ELSE LET ks == {k \in 0 .. Len(S.P) : Live(FlushSome(S, k)) = ids} IN IF ks = {} THEN S ELSE FlushSome(S, Max(ks))
FinalIds(o, s, S, ids) == IF Commits(o) THEN ids = Live(Whole(o, s, S)) ELSE \E k \in 0 .. Len(S.P) : Live(FlushSome(S, k)) = ids
(* least stage from i on presenting ids; 0 when there is none *)
StageOf(ch, ids, i) == LET c == {j \in i .. Len(ch) : ch[j] = ids} IN IF c = {} THEN 0 ELSE Min(c)

(* ---- documents stay as they are: known digests, or for new ones those of the final content ---- *)
SigFn(c) == [d \in ToSet(c.ids) |-> c.sigs[Min({i \in 1 .. Len(c.ids) : c.ids[i] = d})]]
SigsOk(c, known, fin, norms) ==
  \/ \A i \in 1 .. Len(c.ids) :
       LET d == c.ids[i] IN
       IF d \in DOMAIN known THEN c.sigs[i] = known[d]
       ELSE norms \/ ((d \in DOMAIN fin) => c.sigs[i] = fin[d])
  \/ norms /\ \A i \in 1 .. Len(c.ids) : (c.ids[i] \in DOMAIN fin) => c.sigs[i] = fin[c.ids[i]]
ChangesNorms(o, s) == o.op \in {"rcommit", "rclose"} /\ s.R[o.a].norms

(* ---- going on from a state: how = 0 a writer adds ZZ, 1 a reader deletes the first document, 2 a writer opens and closes ---- *)
PrefixSigs(a, b) == Len(b.sigs) >= Len(a.sigs) /\ SubSeq(b.sigs, 1, Len(a.sigs)) = a.sigs
GoOk(p, T) ==
  LET c == T[p.c] IN
  \/ p.how = -1
  \/ /\ p.ge = "" /\ T[p.after].err = ""
     /\ p.how # 1 => (T[p.open].err = "" /\ T[p.open].ids = c.ids /\ T[p.open].sigs = c.sigs)
     /\ LET a == T[p.after] IN
        CASE p.how = 0 -> a.ids = Append(c.ids, ZZ) /\ PrefixSigs(c, a)
          [] p.how = 1 -> IF c.ids = <<>> THEN a.ids = <<>> ELSE a.ids = Tail(c.ids) /\ a.sigs = Tail(c.sigs)
          [] p.how = 2 -> a.ids = c.ids /\ a.sigs = c.sigs
(* after a writer opened, every index file left is one the current commit needs *)
Garbage(p) == IF p.how \in {0, 2} /\ p.ge = "" THEN ToSet(p.files) \ (ToSet(p.need) \cup {"segments"}) ELSE {}
ForeignOk(fs, s, k) == (k \in DOMAIN s.fg) => s.fg[k] \subseteq ToSet(fs)

(* ---- one operation, looked at after every change it made ---- *)
CrJ(e, s, E) ==
  LET o == e.inner  k == KOf(o, s)  S == Start0(o, s.S[k])
      ch == TLCEval(Stages(o, s, S))
      T == e.T  known == TLCEval(s.sig[k] @@ SigFn(T[e.pts[1].c]))      \* the first point is the state before
      last == T[e.pts[Len(e.pts)].c]
      fin == TLCEval(SigFn(last))
      nm == ChangesNorms(o, s)
      run(acc, i) ==
        IF acc.bad # "" THEN acc ELSE
        LET p == e.pts[i] c == T[p.c] j == StageOf(ch, c.ids, acc.i) IN
        IF c.err # "" THEN [acc EXCEPT !.bad = "unreadable", !.at = i]
        ELSE IF Asp(E, "content") /\ j = 0 THEN [acc EXCEPT !.bad = "content", !.at = i]
        ELSE IF Asp(E, "content") /\ ~SigsOk(c, known, fin, nm) THEN [acc EXCEPT !.bad = "document changed", !.at = i]
        ELSE IF Asp(E, "content") /\ ~GoOk(p, T) THEN [acc EXCEPT !.bad = "cannot go on", !.at = i]
        ELSE IF Asp(E, "files") /\ Garbage(p) # {} THEN [acc EXCEPT !.bad = ToString(<<"garbage", Garbage(p)>>), !.at = i]
        ELSE IF Asp(E, "files") /\ ~ForeignOk(p.fg, s, k) THEN [acc EXCEPT !.bad = "foreign file touched", !.at = i]
        ELSE [acc EXCEPT !.i = IF j = 0 THEN acc.i ELSE j]
      res == FoldLeft(run, [i |-> 1, bad |-> "", at |-> 0], [i \in 1 .. Len(e.pts) |-> i])
      s2 == [s EXCEPT !.S = Put(@, k, Left(o, s, S, last.ids)), !.sig = Put(@, k, fin @@ known),
                      !.W = IF o.op = "wopen" THEN Put(@, o.a, k) ELSE @,
                      !.R = IF o.op \in {"rcommit", "rclose"} THEN [@ EXCEPT ![o.a].dirty = FALSE, ![o.a].norms = FALSE] ELSE @]
  IN IF e.oe # "" THEN Reject(s, <<"the operation failed", e.oe>>)
     ELSE IF res.bad # "" THEN Reject(s, [what |-> res.bad, point |-> res.at, pt |-> e.pts[res.at], c |-> T[e.pts[res.at].c], stages |-> ch])
     ELSE Expect(FinalIds(o, s, S, last.ids), s2, [final |-> ch[Len(ch)], seen |-> last.ids])

(* ---- the process stops during the operation; all handles are gone, the next ones start from what is there ---- *)
CrashJ(e, s, E) ==
  LET o == e.inner  k == KOf(o, s)  S == Start0(o, s.S[k])
      ch == TLCEval(Stages(o, s, S))  c == e.T[e.c]  known == s.sig[k]
      j == StageOf(ch, c.ids, 1)
      t == IF j > 0 /\ j <= Len(S.P) + 1 THEN FlushSome(S, j - 1) ELSE Whole(o, s, S)
      s2 == [s EXCEPT !.S = Put(@, k, [t EXCEPT !.P = <<>>]), !.sig = Put(@, k, SigFn(c) @@ known)]
  IN IF e.oe # "" THEN Reject(s, <<"the operation failed", e.oe>>)
     ELSE IF c.err # "" THEN Reject(s, "unreadable")
     ELSE IF ~Asp(E, "content") THEN Ok(s2)
     ELSE Expect(j > 0 /\ SigsOk(c, known, <<>>, ChangesNorms(o, s)), s2, [stages |-> ch, c |-> c])

(* ---- one operation with a failing call ---- *)
FaultOk(x, e, s, E, ch, known, fin, o, S, nm) ==
  IF Has(x, "dead") THEN "the process died or hung" ELSE
  LET T == e.T  c == T[x.c]  f == IF x.cl > 0 THEN T[x.f] ELSE c
      j == StageOf(ch, c.ids, 1)
      (* closing the writer may commit what was added, too *)
      fch == IF x.cl > 0 /\ o.op # "wclose" THEN SubSeq(ch, Max({j, 1}), Len(ch)) ELSE ch
  IN IF c.err # "" THEN "the last commit cannot be read"
     ELSE IF j = 0 THEN "content"
     ELSE IF ~SigsOk(c, known, fin, nm) THEN "document changed"
     ELSE IF f.err # "" THEN "unreadable after closing"
     ELSE IF StageOf(fch, f.ids, 1) = 0 THEN "content after closing"
     ELSE IF ~SigsOk(f, known, fin, nm) THEN "document changed after closing"
     ELSE IF x.oe = "" /\ Commits(o) /\ c.ids # Last(ch) THEN "success reported without effect"
     ELSE IF x.oe = "" /\ x.cl > 0 /\ x.cle = "" /\ f.ids # Last(ch) THEN "success reported but lost"
     ELSE IF x.oe = "" /\ x.cl < 2 /\ x.kind = "close" /\ x.name # "segments" THEN "failure to close a file not reported"
     ELSE IF ~GoOk([x EXCEPT !.c = IF x.cl > 0 THEN x.f ELSE x.c], T) THEN "cannot go on"
     ELSE ""
FlJ(e, s, E) ==
  LET o == e.inner  k == KOf(o, s)  S == Start0(o, s.S[k])
      ch == TLCEval(Stages(o, s, S))
      last == e.T[e.c]  fin == TLCEval(SigFn(last))  known == s.sig[k]  nm == ChangesNorms(o, s)
      bad == {i \in 1 .. Len(e.flt) : FaultOk(e.flt[i], e, s, E, ch, known, fin, o, S, nm) # ""}
      s2 == [s EXCEPT !.S = Put(@, k, Left(o, s, S, last.ids)), !.sig = Put(@, k, fin @@ known),
                      !.W = IF o.op = "wopen" THEN Put(@, o.a, k) ELSE @,
                      !.R = IF o.op \in {"rcommit", "rclose"} THEN [@ EXCEPT ![o.a].dirty = FALSE, ![o.a].norms = FALSE] ELSE @]
  IN IF bad # {} THEN LET i == Min(bad) IN
          Reject(s, [what |-> FaultOk(e.flt[i], e, s, E, ch, known, fin, o, S, nm), fault |-> i, x |-> e.flt[i], stages |-> ch])
     ELSE IF e.oe # "" \/ last.err # "" THEN Reject(s, <<"the operation failed without any fault", e.oe, last.err>>)
     ELSE Expect(FinalIds(o, s, S, last.ids), s2, [final |-> ch[Len(ch)], seen |-> last.ids])

(* ---- readers opening meanwhile: a[1] .. a[2] are the positions in the recorded sequence of changes between which the opening
   happened, e.pos the content (a number) at every position ---- *)
RaceJ(e, s, E) ==
  LET bad == {i \in 1 .. Len(e.o) : ~(e.o[i].err = "" /\ e.o[i].c \in {e.pos[p + 1] : p \in e.o[i].s .. e.o[i].t})} IN
  IF \E p \in 1 .. Len(e.pos) : e.T[e.pos[p]].err # "" THEN Reject(s, "unreadable at a recorded position")
  ELSE IF bad = {} THEN Ok(s)
  ELSE LET i == Min(bad) IN Reject(s, [opening |-> e.o[i], got |-> e.T[e.o[i].c], might |-> {e.T[e.pos[p + 1]].ids : p \in e.o[i].s .. e.o[i].t}])

(* ---- plain operations ---- *)
NormIds(x) == SelectSeq(x, LAMBDA d : d # 0)
Judge(e, s, E) ==
  CASE e.op = "store" -> Ok(s)
    [] e.op = "create" -> Ok([s EXCEPT !.S = Put(@, e.k, NewStore), !.sig = Put(@, e.k, <<>>)])
    [] e.op = "ls" -> Expect(Asp(E, "files") => ForeignOk(e.fg, s, e.k), s, "files of others stay")
    [] e.op = "foreign" -> Ok([s EXCEPT !.fg = Put(@, e.k, ToSet(e.fg))])
    [] e.op = "wopen" -> Ok([s EXCEPT !.W = Put(@, e.a, e.k)])
    [] e.op = "add" -> Ok([s EXCEPT !.S = [@ EXCEPT ![s.W[e.a]] = AddDoc(@, e.d)]])
    [] e.op \in {"commit", "optimize", "wclose", "wdel", "addreaders"} ->
         Ok([s EXCEPT !.S = [@ EXCEPT ![s.W[e.a]] = Whole(e, s, @)]])
    [] e.op = "ropen" ->
         LET S == s.S[e.k] v == NormIds(e.slots)
             ks == {k \in 0 .. Len(S.P) : Live(FlushSome(S, k)) = v}
         IN IF ks = {} THEN Reject(s, [live |-> Live(S), uncommitted |-> S.P])
            ELSE Ok([s EXCEPT !.S = [@ EXCEPT ![e.k] = FlushSome(S, Max(ks))], !.R = Put(@, e.a, [k |-> e.k, view |-> v, dirty |-> FALSE, norms |-> FALSE])])
    [] e.op = "rdel" -> Ok([s EXCEPT !.R = [@ EXCEPT ![e.a].view = SelectSeq(@, LAMBDA d : d # e.d), ![e.a].dirty = TRUE]])
    [] e.op = "undel" -> LET v == NormIds(e.slots) IN
         Expect(\A d \in ToSet(s.R[e.a].view) : d \in ToSet(v), [s EXCEPT !.R = [@ EXCEPT ![e.a].view = v, ![e.a].dirty = TRUE]], "undeleting deletes nothing")
    [] e.op = "rnorm" -> Ok([s EXCEPT !.R = [@ EXCEPT ![e.a].dirty = TRUE, ![e.a].norms = TRUE]])
    [] e.op \in {"rcommit", "rclose"} ->
         Ok([s EXCEPT !.S = [@ EXCEPT ![s.R[e.a].k] = Whole(e, s, @)], !.sig = IF s.R[e.a].norms THEN Put(@, s.R[e.a].k, <<>>) ELSE @,
                      !.R = [@ EXCEPT ![e.a].dirty = FALSE, ![e.a].norms = FALSE]])
    [] e.op = "cr" -> CrJ(e, s, E)
    [] e.op = "crashat" -> CrashJ(e, s, E)
    [] e.op = "fl" -> FlJ(e, s, E)
    [] e.op \in {"jstart", "jend"} -> Ok(s)
    [] e.op = "race" -> RaceJ(e, s, E)
    [] OTHER -> Reject(s, "no action of the specification explains this")
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
