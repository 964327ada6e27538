--------------------------- MODULE HighlightTrace ---------------------------
(* Recorded highlights of generated documents. *)
EXTENDS TraceBase, Highlight
EpInit(E) == [docs |-> <<>>]
Blank == {32, 9, 10}
(* the whitespace-separated tokens of a value, positions and offsets running on from the ones before *)
Split(E, v, base, pos) ==
  LET starts == SetToSortSeq({i \in DOMAIN v : v[i] \notin Blank /\ (i = 1 \/ v[i - 1] \in Blank)}, <)
      end(i) == Min({j \in i .. Len(v) : v[j] \in Blank} \cup {Len(v) + 1})
  IN [n \in DOMAIN starts |-> LET i == starts[n] e == end(i) w == SubSeq(v, i, e - 1) IN <<CHOOSE k \in DOMAIN E.voc : E.voc[k] = w, pos + n - 1, base + i - 1, base + e - 1>>]
TokensOf(E, vs) == FoldLeft(LAMBDA a, v : [tk |-> a.tk \o Split(E, v, a.at, Len(a.tk)), at |-> a.at + Len(v) + 1], [tk |-> <<>>, at |-> 0], vs).tk
Joined(vs) == FoldLeft(LAMBDA a, k : IF k = 1 THEN vs[1] ELSE a \o <<32>> \o vs[k], <<>>, [k \in DOMAIN vs |-> k])
Judge(e, s, E) ==
  CASE e.op = "x" -> Ok(s)
    [] e.op = "docs" -> Ok([s EXCEPT !.docs = TLCEval([i \in DOMAIN e.docs |-> [f \in {x[1] : x \in ToSet(e.docs[i])} |->
                              LET vs == (CHOOSE x \in ToSet(e.docs[i]) : x[1] = f)[2] IN TLCEval([tk |-> TokensOf(E, vs), text |-> Joined(vs)])]])])
    [] e.op = "hl" ->
         LET d == s.docs[e.d + 1]
             tkf == TLCEval([f \in DOMAIN d |-> d[f].tk])
             has == e.f \in DOMAIN d /\ e.f \in {"f", "g"} /\ tkf[e.f] # <<>>       \* with vectors of positions and offsets
             m == TLCEval(IF has THEN Marks(E, e.q, e.f, tkf) ELSE None)
             t == [pre |-> e.pre, post |-> e.post, ell |-> e.ell]
             text == IF has THEN d[e.f].text ELSE <<>>
             tk == tkf[e.f]
             whole == Len(text) < e.len * e.num
         IN Expect(CASE ~has -> e.r.null = 1
                     [] e.r.null = 1 -> ~whole /\ ~m.must
                     [] whole -> Len(e.r.x) = 1 /\ WholeOk(m, tk, text, e.r.x[1], e.pre, e.post)
                     [] OTHER -> m.may # {} /\ ExcerptsOk(m, tk, text, e.r.x, e.num, t),
                   s, [marks |-> m, whole |-> whole])
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
