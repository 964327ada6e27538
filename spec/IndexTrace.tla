----------------------------- MODULE IndexTrace -----------------------------
(* Judges recorded executions of the index and search layers (C01-C05, C08,
   C11-C18).  Events carry the call, its arguments and the observed result. *)
EXTENDS TraceBase, Docs, Index, Query

EpInit(E) == [S |-> <<>>, W |-> <<>>, R |-> <<>>, X |-> <<>>, F |-> <<>>, fresh |-> 1000]
Put(f, k, v) == (k :> v) @@ f
SetS(s, k, v) == [s EXCEPT !.S = Put(@, k, v)]
SetR(s, r, v) == [s EXCEPT !.R = Put(@, r, v)]
RName(r) == "r" \o ToString(r)
WName(w) == "w" \o ToString(w)

(* tokens of every document of every episode, computed once *)
Tk == [i \in 1 .. Len(Episodes) |->
        [d \in 1 .. Len(Episodes[i].docs) |->
          [f \in Fields(Episodes[i], d) |-> IndexedToks(Episodes[i], d, f)]]]
Toks(d, f) == IF d > 0 /\ f \in DOMAIN Tk[ep][d] THEN Tk[ep][d][f] ELSE <<>>
Occ(d, f, t) == OccIn(Toks(d, f), t)
HasTerm(d, f, t) == \E i \in 1 .. Len(Toks(d, f)) : Toks(d, f)[i][1] = t
AllIds == 1 .. Len(Episodes[ep].docs)

(* ---------------------------------------------------------------- reading *)
DumpExp(r) == [max |-> Len(r.slots), num |-> NumDocs(r), slots |-> View(r)]
DumpOk(r, o) == /\ o.max = Len(r.slots) /\ o.num = NumDocs(r) /\ o.slots = View(r)
                /\ (o.hasdel = 1) = (r.del # {})

(* k documents of the uncommitted ones are visible; observed slots fit *)
OpenFits(s, o, k) == LET t == FlushSome(s, k) IN SlotsOk(o.slots, t.C, t.D)
RopenJ(e, s) ==
  LET store == s.S[e.k]
      ks == {k \in 0 .. Len(store.P) : OpenFits(store, e.r, k)}
  IN IF ks = {} THEN Reject(s, [committed |-> store.C, deleted |-> store.D, uncommitted |-> store.P])
     ELSE LET t == FlushSome(store, Max(ks))
              r == OpenReader(e.k, t, e.r.slots, s.fresh)
          IN Expect(DumpOk(r, e.r), [SetS(SetR(s, e.a, r), e.k, t) EXCEPT !.fresh = @ + 1000], DumpExp(r))
MultiOf(s, rs) ==
  [open |-> TRUE, k |-> 0, slots |-> FlattenSeq([i \in 1 .. Len(rs) |-> s.R[rs[i]].slots]),
   del |-> LET v == FlattenSeq([i \in 1 .. Len(rs) |-> View(s.R[rs[i]])]) IN DelSlots(v),
   nrm |-> FoldLeft(LAMBDA a, r : s.R[r].nrm @@ a, <<>>, rs), ver |-> 0, unc |-> 0, dirty |-> FALSE, subs |-> rs]

Posting(r, f, t) ==   \* what enumerating a term yields: live documents with their positions
  LET ids == SelectSeq([i \in 1 .. Len(r.slots) |-> i], LAMBDA i : i \notin r.del /\ HasTerm(r.slots[i], f, t))
  IN [j \in 1 .. Len(ids) |-> <<ids[j] - 1, Occ(r.slots[ids[j]], f, t)>>]
Ambiguous(r) == \E i \in r.del : r.slots[i] <= 0
DfLo(r, f, t) == Cardinality({i \in 1 .. Len(r.slots) : HasTerm(r.slots[i], f, t)})
DfOk(r, f, t, n) ==
  LET lo == DfLo(r, f, t) IN n >= lo /\ n <= lo + Cardinality({i \in r.del : r.slots[i] <= 0})
LiveTerms(r, f) == UNION {TermsIn(Toks(r.slots[i], f)) : i \in (1 .. Len(r.slots)) \ r.del}
AnyTerms(r, f) ==
  IF Ambiguous(r) THEN UNION {TermsIn(Toks(d, f)) : d \in AllIds}
  ELSE UNION {TermsIn(Toks(r.slots[i], f)) : i \in 1 .. Len(r.slots)}
TermsOk(r, f, o) ==
  LET ts == [i \in 1 .. Len(o) |-> o[i][1]] IN
  /\ \A i \in 1 .. Len(ts) - 1 : ts[i] < ts[i + 1]
  /\ LiveTerms(r, f) \subseteq ToSet(ts) /\ ToSet(ts) \subseteq AnyTerms(r, f)
  /\ \A i \in 1 .. Len(o) : /\ DfOk(r, f, o[i][1], o[i][2]) /\ o[i][3] = o[i][2]
                            /\ o[i][4] = Posting(r, f, o[i][1])
TermsExp(r, f) == [t \in LiveTerms(r, f) |-> Posting(r, f, t)]
(* after seeking, the terms from the first not below t on; lo/hi tell where t lies in the vocabulary:
   terms >= ge are not below it *)
SeekOk(r, f, ge, k, o) ==
  LET lv == SortedSet({t \in LiveTerms(r, f) : t >= ge})
      av == SortedSet({t \in AnyTerms(r, f) : t >= ge}) IN
  /\ \A i \in 1 .. Len(o) - 1 : o[i] < o[i + 1]
  /\ ToSet(o) \subseteq ToSet(av)
  /\ IF Ambiguous(r) \/ r.del # {}
     THEN \A t \in ToSet(lv) : t \in ToSet(o) \/ Len(o) = k + 1
     ELSE o = SubSeq(av, 1, Min({k + 1, Len(av)}))
  /\ Len(o) <= k + 1
  /\ \A t \in ToSet(lv) : (Len(o) > 0 /\ t < o[Len(o)]) => t \in ToSet(o)
(* a sequence of next / skip_to moves over a posting list *)
SkipRun(r, f, t, moves) ==
  LET post == Posting(r, f, t)
      step(acc, m) ==
        IF acc.done THEN acc
        ELSE LET lim == IF m < 0 THEN acc.at + 1 ELSE acc.at + 1   \* index of the next entry
                 c == {i \in lim .. Len(post) : m < 0 \/ post[i][1] >= m}
             IN IF c = {} THEN [acc EXCEPT !.done = TRUE, !.out = Append(@, <<-1, 0, <<>>>>)]
                ELSE [acc EXCEPT !.at = Min(c), !.out = Append(@, <<post[Min(c)][1], Len(post[Min(c)][2]), post[Min(c)][2]>>)]
  IN FoldLeft(step, [at |-> 0, done |-> FALSE, out |-> <<>>], moves).out
SkipOk(exp, o, pos) ==
  /\ Len(o) = Len(exp)
  /\ \A i \in 1 .. Len(o) : /\ o[i][1] = exp[i][1] /\ o[i][2] = exp[i][2]
                            /\ pos = 0 => o[i][3] = <<>>
                            /\ pos = 1 => o[i][3] = exp[i][3]
                            /\ pos > 1 => IsPrefix(o[i][3], exp[i][3])

(* ---- term vectors ---- *)
TVExp(d, f) ==
  LET c == Cfg(Episodes[ep], d, f) tk == Toks(d, f) ts == SortedSet(TermsIn(tk)) IN
  [t |-> [i \in 1 .. Len(ts) |-> <<ts[i], Len(OccIn(tk, ts[i])), IF TVPos(c) THEN OccIn(tk, ts[i]) ELSE <<>>, IF TVPos(c) THEN 1 ELSE 0>>],
   o |-> IF TVOff(c) THEN [i \in 1 .. Len(tk) |-> <<tk[i][3], tk[i][4]>>] ELSE <<>>]
TVFields(d) == {f \in Fields(Episodes[ep], d) : HasTV(Cfg(Episodes[ep], d, f)) /\ Toks(d, f) # <<>>}
TVMay(d) == {f \in Fields(Episodes[ep], d) : HasTV(Cfg(Episodes[ep], d, f))}
TVEq(x, y) == x.t = y.t /\ x.o = y.o
TVOk(d, o) ==
  /\ LET got == {o.all[i][1] : i \in 1 .. Len(o.all)} IN   \* a field without tokens may have an empty vector
     TVFields(d) \subseteq got /\ got \subseteq TVMay(d) /\ Len(o.all) = Cardinality(got)
  /\ \A i \in 1 .. Len(o.all) : TVEq(o.all[i][2], TVExp(d, o.all[i][1]))
  /\ \A i \in 1 .. Len(o.one) :
        IF o.one[i][1] \in TVFields(d) THEN ~Has(o.one[i][2], "none") /\ TVEq(o.one[i][2], TVExp(d, o.one[i][1]))
        ELSE o.one[i][2].t = <<>>

(* ---- norms ---- *)
NormSet(r, f, d) == IF <<d, f>> \in DOMAIN r.nrm THEN {r.nrm[<<d, f>>]} ELSE DocNorms(Episodes[ep], d, f)
NormsOk(r, f, o) ==
  /\ o.null = 0 => \A i \in (1 .. Len(r.slots)) \ r.del : o.n[i] \in NormSet(r, f, r.slots[i])
  /\ \A i \in (1 .. Len(r.slots)) \ r.del : o.into[i] \in NormSet(r, f, r.slots[i])

(* ---------------------------------------------------------------- modifying through a reader *)
(* outcome of an attempt to modify through reader e.a: refused if the lock is
   held by another or the reader is stale; either if its staleness is unknown *)
RModify(e, s, newr) ==
  LET r == s.R[e.a] store == s.S[r.k] me == RName(e.a) IN
  IF store.lock # "" /\ store.lock # me
  THEN Expect(e.err # "", s, "refused: another holds the index")
  ELSE IF store.lock = me THEN Expect(e.err = "", SetR(s, e.a, newr), "allowed")
  ELSE IF CertainlyStale(r, store) THEN Expect(e.err # "", s, "refused: the reader is stale")
  ELSE IF e.err # "" THEN Expect(~CertainlyLatest(r, store), s, "allowed: the reader is current and the index free")
  ELSE Ok([SetS(SetR(s, e.a, newr), r.k, [store EXCEPT !.lock = me]) EXCEPT !.fresh = @])

(* the slot (from 1) presenting document d, 0 when none does *)
SlotOf(r, d) == LET c == {i \in 1 .. Len(r.slots) : i \notin r.del /\ r.slots[i] = d} IN IF c = {} THEN 0 ELSE Min(c)
AtDoc(e, s, cond, exp) ==
  LET i == SlotOf(s.R[e.a], e.d) IN
  IF e.r.slot # i - 1 THEN Reject(s, [slot |-> i - 1])
  ELSE IF i = 0 THEN Ok(s) ELSE Expect(cond, s, exp)
IdSlots(r) == {i \in 1 .. Len(r.slots) : i \notin r.del}
UndelOk(r, store, o) ==
  /\ Len(o.slots) = Len(r.slots) /\ o.num = Len(r.slots) /\ o.max = Len(r.slots) /\ o.hasdel = 0
  /\ \A i \in 1 .. Len(r.slots) : IF r.slots[i] > 0 THEN o.slots[i] = r.slots[i] ELSE o.slots[i] \in store.D
  /\ \A i, j \in 1 .. Len(o.slots) : i < j => o.slots[i] # o.slots[j]

(* modifications through a multi-reader go to the reader holding the slot *)
SubAt(s, rs, slot) ==
  LET lens == [i \in 1 .. Len(rs) |-> Len(s.R[rs[i]].slots)]
      st0(i) == SumSeq(SubSeq(lens, 1, i - 1))
      i == CHOOSE j \in 1 .. Len(rs) : st0(j) < slot /\ slot <= st0(j) + lens[j]
  IN <<rs[i], slot - st0(i)>>
(* apply change(r, i) to the reader presenting slot i of reader a: itself or, for a
   multi-reader, the reader underneath (whose lock and staleness count) *)
Through(e, s, i, change(_, _)) ==
  LET m == s.R[e.a] IN
  IF m.subs = <<>> THEN RModify(e, s, change(m, i))
  ELSE LET sa == SubAt(s, m.subs, i)
           j == RModify([e EXCEPT !.a = sa[1]], s, change(s.R[sa[1]], sa[2]))
       IN IF j.ok /\ e.err = "" THEN Ok(SetR(j.s, e.a, change(m, i))) ELSE j
DelSlot(r, i) == [r EXCEPT !.del = @ \cup {i}]
CommitR(s, a) ==
  LET r == s.R[a] IN
  IF r.k # 0 /\ s.S[r.k].lock = RName(a)
  THEN LET t == ReaderCommit(r, s.S[r.k], RName(a))
       IN SetS(SetR(s, a, [r EXCEPT !.ver = t.ver, !.unc = t.unc]), r.k, t)
  ELSE s
CommitAll(s, a) == IF s.R[a].subs = <<>> THEN CommitR(s, a) ELSE FoldLeft(LAMBDA x, b : CommitR(x, b), s, s.R[a].subs)
(* ---------------------------------------------------------------- searching *)
(* a searcher over one or several readers numbers their documents one after another *)
SView(s, a) == MultiOf(s, s.X[a])
LiveSlots(r) == (1 .. Len(r.slots)) \ r.del
STks(r) == [i \in LiveSlots(r) |-> Tk[ep][r.slots[i]]]
QSem(r, q) == TLCEval(Sem(Episodes[ep], q, TLCEval(LiveSlots(r)), TLCEval(STks(r))))
FSem(r, e) ==   \* documents the search's filter admits
  IF e.flt.q = "none" THEN [lo |-> LiveSlots(r), hi |-> LiveSlots(r)] ELSE TLCEval(SemF(Episodes[ep], e.flt, TLCEval(LiveSlots(r)), TLCEval(STks(r))))
Between(S, m, f) == (m.lo \cap f.lo) \subseteq S /\ S \subseteq (m.hi \cap f.hi)
HitDocs(h) == {h[i][1] + 1 : i \in 1 .. Len(h)}
ScoresOf(h) == [d \in HitDocs(h) |-> LET i == CHOOSE j \in 1 .. Len(h) : h[j][1] + 1 = d IN h[i][2]]
(* ranking: higher score first, then lower document number *)
Rank(sc) == SetToSortSeq(DOMAIN sc, LAMBDA x, y : sc[x] > sc[y] \/ (sc[x] = sc[y] /\ x < y))
Slice(q, first, n) == IF first >= Len(q) THEN <<>> ELSE SubSeq(q, first + 1, first + Min({Len(q) - first, n}))
Close(x, y) == LET z == x - y IN z <= 64 /\ z >= 0 - 64      \* as floats: equal up to rounding
EachJ(e, s) ==
  LET r == SView(s, e.a) m == QSem(r, e.q) f == FSem(r, e) h == e.r.hits IN
  Expect(/\ Between(HitDocs(h), m, f) /\ Cardinality(HitDocs(h)) = Len(h)
         /\ "like" \in DOMAIN e => LET o == s.F[e.like] IN     \* the same documents elsewhere: the same scores
              (IF "part" \in DOMAIN e THEN HitDocs(h) \subseteq DOMAIN o ELSE DOMAIN o = HitDocs(h)) /\ \A i \in 1 .. Len(h) : Close(h[i][2], o[h[i][1] + 1]),
         [s EXCEPT !.F = Put(@, <<e.a, e.qid>>, ScoresOf(h))], [match |-> m, filter |-> f])
Known(s, e) == <<e.a, e.qid>> \in DOMAIN s.F
SearchJ(e, s) ==
  LET r == SView(s, e.a) h == e.r.hits f == FSem(r, e) IN
  IF Known(s, e)     \* the scores were reported before: this must be a slice of their ranking
  THEN LET sc0 == s.F[<<e.a, e.qid>>]
           sc == [d \in DOMAIN sc0 \cap f.lo |-> sc0[d]]
           rk == Rank(sc) want == Slice(rk, e.first, e.num)
       IN Expect(/\ f.lo = f.hi => [i \in 1 .. Len(h) |-> h[i]] = [i \in 1 .. Len(want) |-> <<want[i] - 1, sc[want[i]]>>]
                 /\ f.lo = f.hi => e.r.total = Cardinality(DOMAIN sc)
                 /\ f.lo = f.hi /\ rk # <<>> => e.r.max = sc[rk[1]],
                 s, [hits |-> [i \in 1 .. Len(want) |-> <<want[i] - 1, sc[want[i]]>>], total |-> Cardinality(DOMAIN sc)])
  ELSE LET m == QSem(r, e.q) H == HitDocs(h) IN
       Expect(/\ Cardinality(H) = Len(h) /\ H \subseteq m.hi \cap f.hi
              /\ e.r.total >= Cardinality(m.lo \cap f.lo) /\ e.r.total <= Cardinality(m.hi \cap f.hi)
              /\ Len(h) = Max({0, Min({e.num, e.r.total - e.first})})
              /\ e.first = 0 /\ e.num >= e.r.total => m.lo \cap f.lo \subseteq H
              /\ \A i \in 1 .. Len(h) - 1 : h[i][2] > h[i + 1][2] \/ (h[i][2] = h[i + 1][2] /\ h[i][1] < h[i + 1][1]),
              s, [match |-> m, filter |-> f])
(* ---- sorted searches: a document's key is its greatest term of the field ---- *)
IsInt(w) == LET d == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w IN d # <<>> /\ \A i \in 1 .. Len(d) : d[i] \in 48 .. 57
IntVal(w) ==     \* as scanf reads it: the leading digits
  LET neg == w # <<>> /\ w[1] = 45
      d == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
      n == Min({i \in 1 .. Len(d) : d[i] \notin 48 .. 57} \cup {Len(d) + 1}) - 1
      v == DecVal(SubSeq(d, 1, n)) IN IF neg THEN 0 - v ELSE v
AutoType(w) == IF IsInt(w) THEN "int" ELSE IF IsNum(w) THEN "float" ELSE "string"
KeyTerm(r, f, i) == LET T == TermsIn(Toks(r.slots[i], f)) IN IF T = {} THEN 0 ELSE Max(T)
SortKey(r, sc, ty, f, i) ==
  LET t == IF ty \in {"score", "doc"} THEN 0 ELSE KeyTerm(r, f, i) IN
  CASE ty = "score" -> 0 - sc[i]
    [] ty = "doc" -> i
    [] ty = "byte" -> t
    [] ty = "string" -> IF t = 0 THEN 1000000 ELSE t
    [] ty = "int" -> IF t = 0 THEN 0 ELSE IntVal(Episodes[ep].voc[t])
    [] ty = "float" -> IF t = 0 \/ ~IsNum(Episodes[ep].voc[t]) THEN 0 ELSE NumVal(Episodes[ep].voc[t])
(* the types a sort of automatic type may take: that of the field's first term, which may belong to a deleted document *)
AutoTypes(r, f) ==
  LET L == LiveTerms(r, f) A == AnyTerms(r, f)
      c == IF L = {} THEN A ELSE {t \in A : t <= Min(L)} IN {AutoType(Episodes[ep].voc[t]) : t \in c}
Types(r, k) == IF k[1] = "auto" THEN AutoTypes(r, k[2]) ELSE {k[1]}
Before(a, b, n) == LET d == {j \in 1 .. n : a[j] # b[j]} IN d # {} /\ a[Min(d)] < b[Min(d)]
SortedBy(r, sc, sort, ty) ==      \* ty gives each key's type; ties go by document number
  LET n == Len(sort)
      key == TLCEval([i \in DOMAIN sc |-> [j \in 1 .. n + 1 |->
               IF j > n THEN i ELSE LET v == SortKey(r, sc, ty[j], sort[j][2], i) IN IF sort[j][3] = 1 THEN 0 - v ELSE v]])
  IN SetToSortSeq(DOMAIN sc, LAMBDA x, y : Before(key[x], key[y], n + 1))
SortedJ(e, s) ==
  LET r == SView(s, e.a) h == e.r.hits f == FSem(r, e)
      sc0 == s.F[<<e.a, e.qid>>]
      sc == TLCEval([d \in DOMAIN sc0 \cap f.lo |-> sc0[d]])
      tys == FoldLeft(LAMBDA acc, k : {Append(y, t) : y \in acc, t \in Types(r, k)}, {<<>>}, e.sort)
      wants == TLCEval({Slice(SortedBy(r, sc, e.sort, ty), e.first, e.num) : ty \in tys})
      absent == \E j \in 1 .. Len(e.sort) : e.sort[j][2] = "zz" \/ (e.sort[j][1] = "auto" /\ LiveTerms(r, e.sort[j][2]) = {})
  IN IF absent THEN Expect(e.err # "" \/ sc = <<>> \/ tys # {}, s, "refused: no such field")
     ELSE IF e.err # "" THEN Reject(s, wants)
     ELSE Expect(f.lo = f.hi =>
                   /\ \E w \in wants : h = [i \in 1 .. Len(w) |-> <<w[i] - 1, sc[w[i]]>>]
                   /\ e.r.total = Cardinality(DOMAIN sc)
                   /\ DOMAIN sc # {} => e.r.max = Max({sc[d] : d \in DOMAIN sc}), s, [hits |-> wants, total |-> Cardinality(DOMAIN sc)])
UnscoredJ(e, s) ==   \* the matches from a document number on, in order, up to a limit
  LET r == SView(s, e.a) kn == Known(s, e)
      m == IF kn THEN LET D == DOMAIN s.F[<<e.a, e.qid>>] IN [lo |-> D, hi |-> D] ELSE QSem(r, e.q)
      d == [i \in 1 .. Len(e.r.d) |-> e.r.d[i] + 1]
      from(S) == SortedSet({i \in S : i > e.off}) IN
  Expect(/\ \A i \in 1 .. Len(d) - 1 : d[i] < d[i + 1]
         /\ ToSet(d) \subseteq ToSet(from(m.hi)) /\ Len(d) <= e.lim
         /\ \A x \in ToSet(from(m.lo)) : x \in ToSet(d) \/ (e.lim > 0 /\ Len(d) = e.lim /\ x > d[Len(d)]) \/ e.lim = 0,
         s, [match |-> m, from |-> e.off])
ExplainJ(e, s) ==
  LET sc == s.F[<<e.a, e.qid>>] IN
  IF e.d >= Len(SView(s, e.a).slots) THEN Expect(e.r.v = 0 - 1, s, "no such document")
  ELSE IF e.d + 1 \in DOMAIN sc THEN Expect(Close(e.r.v, sc[e.d + 1]), s, [score |-> sc[e.d + 1]]) ELSE Ok(s)
(* ---------------------------------------------------------------- events *)
WOps == {"wclose", "add", "wdel", "commit", "optimize", "wcount", "addreaders"}
ROps == {"rclose", "rcommit", "dump", "rdel", "undel", "rnorm", "latest", "stored", "bytes", "terms", "seek", "skip", "bulk", "df", "docwith", "tvs", "norms"}
Missing(e, s) == \/ e.op \in WOps /\ (e.a \notin DOMAIN s.W \/ s.W[e.a] = 0)
                 \/ e.op \in ROps /\ (e.a \notin DOMAIN s.R \/ ~s.R[e.a].open)
Judge(e, s, E) ==
  CASE e.err = "nohandle" -> Expect(Missing(e, s), s, "the handle is open")
    [] Missing(e, s) -> Reject(s, "the handle is not open")
    [] e.op = "store" -> Ok(SetS(s, e.k, NewStore))
    [] e.op = "create" -> Ok(SetS(s, e.k, [NewStore EXCEPT !.ver = IF e.k \in DOMAIN s.S THEN s.S[e.k].ver + 1 ELSE 0]))
    [] e.op = "nop" -> Ok(s)
    [] e.op = "wopen" ->
         IF s.S[e.k].lock # "" THEN Expect(e.err # "", s, "refused: the index is held by another")
         ELSE Expect(e.err = "", [SetS(s, e.k, [s.S[e.k] EXCEPT !.lock = WName(e.a)]) EXCEPT !.W = Put(@, e.a, e.k)], "opened")
    [] e.op = "wclose" ->
         Ok([SetS(s, s.W[e.a], [Flush(s.S[s.W[e.a]]) EXCEPT !.lock = ""]) EXCEPT !.W = Put(@, e.a, 0)])
    [] e.op = "add" -> Ok(SetS(s, s.W[e.a], AddDoc(s.S[s.W[e.a]], e.d)))
    [] e.op = "wdel" ->
         LET k == s.W[e.a] X == {d \in ToSet(s.S[k].C) \cup ToSet(s.S[k].P) : d > 0 /\ \E i \in 1 .. Len(e.t) : HasTerm(d, e.f, e.t[i])} IN
         IF X = {} THEN Ok(SetS(s, k, [s.S[k] EXCEPT !.unc = @ + 1]))   \* nothing to delete (perhaps not even such a field)
         ELSE Ok(SetS(s, k, DeleteDocs(s.S[k], X)))
    [] e.op = "commit" -> Ok(SetS(s, s.W[e.a], Flush(s.S[s.W[e.a]])))
    [] e.op = "optimize" -> Ok(SetS(s, s.W[e.a], Optimize(s.S[s.W[e.a]])))
    [] e.op = "wcount" ->
         LET t == s.S[s.W[e.a]] IN
         Expect(e.r.v >= Len(Live(t)) + Len(t.P) /\ e.r.v <= Len(t.C) + Len(t.P), s, [least |-> Len(Live(t)) + Len(t.P)])
    [] e.op = "addreaders" ->
         LET m == MultiOf(s, e.rs) k == s.W[e.a] IN
         Ok(SetS(s, k, Absorb(s.S[k], m.slots, {m.slots[i] : i \in m.del}, m.nrm)))
    [] e.op = "ropen" -> RopenJ(e, s)
    [] e.op = "mropen" -> LET m == MultiOf(s, e.rs) IN Expect(DumpOk(m, e.r), SetR(s, e.a, m), DumpExp(m))
    [] e.op = "rclose" ->
         Ok(SetR(CommitAll(s, e.a), e.a, NoReader))
    [] e.op = "rcommit" ->
         Ok(CommitAll(s, e.a))
    [] e.op = "dump" -> Expect(DumpOk(s.R[e.a], e.r), s, DumpExp(s.R[e.a]))
    [] e.op = "rdel" ->
         LET i == SlotOf(s.R[e.a], e.d) IN
         IF e.err = "" /\ e.r.slot # i - 1 THEN Reject(s, [slot |-> i - 1])
         ELSE IF i = 0 THEN Expect(e.err = "", s, "nothing to delete")
         ELSE Through(e, s, i, DelSlot)
    [] e.op = "undel" ->
         IF e.err # "" THEN RModify(e, s, s.R[e.a])
         ELSE IF ~UndelOk(s.R[e.a], s.S[s.R[e.a].k], e.r) THEN Reject(s, [undeleted |-> s.R[e.a].slots])
         ELSE RModify(e, s, [s.R[e.a] EXCEPT !.del = {}, !.slots = e.r.slots])
    [] e.op = "rnorm" ->
         LET i == SlotOf(s.R[e.a], e.d) IN
         IF e.err = "" /\ e.r.slot # i - 1 THEN Reject(s, [slot |-> i - 1])
         ELSE IF i = 0 THEN Expect(e.err = "", s, "nothing to change")
         ELSE LET set(r, j) == [r EXCEPT !.nrm = Put(@, <<e.d, e.f>>, e.v)] IN Through(e, s, i, set)
    [] e.op = "latest" ->
         LET r == s.R[e.a] t == s.S[r.k] IN
         Expect((CertainlyStale(r, t) => e.r.v = 0) /\ (CertainlyLatest(r, t) => e.r.v = 1), s,
                [stale |-> CertainlyStale(r, t), latest |-> CertainlyLatest(r, t)])
    [] e.op = "locked" -> Expect((e.r.v = 1) = (s.S[e.k].lock # ""), s, [lock |-> s.S[e.k].lock])
    [] e.op = "exists" -> Expect((e.r.v = 1) = e.want, s, [exists |-> e.want])
    [] e.op = "stored" ->
         LET x == StoredVals(E, e.d) IN
         AtDoc(e, s,
               /\ Len(e.r.f) = Cardinality(DOMAIN x)
               /\ {e.r.f[i][1] : i \in 1 .. Len(e.r.f)} = DOMAIN x
               /\ \A i \in 1 .. Len(e.r.f) : e.r.f[i][2] = IF e.m = 2 THEN Reverse(x[e.r.f[i][1]]) ELSE x[e.r.f[i][1]], x)
    [] e.op = "bytes" -> IF e.err # "" THEN Reject(s, [bytes |-> e.want]) ELSE AtDoc(e, s, e.r.v = e.want, [bytes |-> e.want])
    [] e.op = "terms" -> Expect(TermsOk(s.R[e.a], e.f, e.r.t), s, [terms |-> TermsExp(s.R[e.a], e.f)])
    [] e.op = "seek" -> Expect(SeekOk(s.R[e.a], e.f, e.ge, e.n, e.r.t), s, [live |-> LiveTerms(s.R[e.a], e.f), ge |-> e.ge])
    [] e.op = "skip" ->
         LET x == SkipRun(s.R[e.a], e.f, e.t, e.mv) IN
         Expect(SkipOk(x, e.r.d, e.pos) \/ (e.r.none = 1 /\ Posting(s.R[e.a], e.f, e.t) = <<>>), s, x)
    [] e.op = "bulk" ->
         LET p == Posting(s.R[e.a], e.f, e.t) x == [i \in 1 .. Len(p) |-> <<p[i][1], Len(p[i][2])>>] IN Expect(e.r.d = x, s, x)
    [] e.op = "df" -> Expect(DfOk(s.R[e.a], e.f, e.t, e.r.v), s, [df |-> DfLo(s.R[e.a], e.f, e.t)])
    [] e.op = "docwith" ->
         LET p == Posting(s.R[e.a], e.f, e.t) IN
         Expect(IF p = <<>> THEN e.r.v = 0 ELSE e.r.v = s.R[e.a].slots[p[1][1] + 1], s, p)
    [] e.op = "tvs" ->
         AtDoc(e, s, TVOk(e.d, e.r), [f \in TVFields(e.d) |-> TVExp(e.d, f)])
    [] e.op = "norms" ->
         LET r == s.R[e.a] IN
         Expect(NormsOk(r, e.f, e.r), s, [norms |-> [i \in (1 .. Len(r.slots)) \ r.del |-> NormSet(r, e.f, r.slots[i])]])
    [] e.op = "sopen" -> Ok([s EXCEPT !.X = Put(@, e.a, e.rs)])
    [] e.op = "sclose" -> Ok(s)
    [] e.op = "each" -> EachJ(e, s)
    [] e.op = "search" -> SearchJ(e, s)
    [] e.op = "sorted" -> SortedJ(e, s)
    [] e.op = "unscored" -> UnscoredJ(e, s)
    [] e.op = "explain" -> ExplainJ(e, s)
    [] OTHER -> Reject(s, "no action of the specification explains this")
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
