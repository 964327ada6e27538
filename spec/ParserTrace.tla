---------------------------- MODULE ParserTrace ----------------------------
(* Recorded parses: the documents, parser configurations, and what each parsed
   string matches. *)
EXTENDS TraceBase, Parser
R == 0 .. 7
EpInit(E) == [voc |-> <<>>, tks |-> <<>>, C |-> [k \in R |-> <<>>]]
(* docs: one sequence of <<field, words>> per document *)
Vocab(docs) == SetToSeq(UNION {UNION {ToSet(d[j][2]) : j \in DOMAIN d} : d \in ToSet(docs)})
Tok0(voc, d) == [f \in {d[j][1] : j \in DOMAIN d} |-> LET ws == (CHOOSE x \in ToSet(d) : x[1] = f)[2] IN
                   [i \in DOMAIN ws |-> <<CHOOSE k \in DOMAIN voc : voc[k] = ws[i], i - 1>>]]
Sorted(b) == SortSeq(b, <)
Judge(e, s, E) ==
  CASE e.op = "x" -> Ok(s)
    [] e.op = "docs" -> LET voc == TLCEval(Vocab(e.docs)) IN
         Ok([s EXCEPT !.voc = voc, !.tks = [i \in 0 .. Len(e.docs) - 1 |-> TLCEval(Tok0(voc, e.docs[i + 1]))]])
    [] e.op = "qp" -> Ok([s EXCEPT !.C[e.a] = e.c])
    [] e.op = "parse" ->
         LET C == s.C[e.k]
             p == TLCEval(Parse(s.voc, C, e.s))
             nothing == p.ok /\ p.q = <<>>
             L == DOMAIN s.tks
             m == IF ~p.ok \/ nothing THEN [lo |-> {}, hi |-> {}] ELSE TLCEval(Sem([voc |-> s.voc], p.q[1], L, s.tks))
             got == {h[1] : h \in ToSet(e.r.hits)}
             (* cleaning doubles an escaped backslash within a phrase and escapes a < without its >: left open *)
             dbl == \E i \in 2 .. Len(e.s) : (e.s[i] = 92 /\ e.s[i - 1] = 92) \/ (e.s[i - 1] = 60 /\ e.s[i] \in {9, 32})
             free == p.open \/ (C.clean = 1 /\ dbl) \/ (C.clean = 1 /\ ~p.ok) \/ (C.handle = 1 /\ (~p.ok \/ nothing))
         IN IF e.err # "" THEN Expect(C.handle = 0 /\ (~p.ok \/ p.open), s, [parse |-> p.q, docs |-> m])
            ELSE Expect(\/ free
                        \/ /\ p.ok /\ m.lo \subseteq got /\ got \subseteq m.hi /\ Cardinality(got) = Len(e.r.hits)
                           /\ -1 \in ToSet(p.b) \/ Sorted(p.b) = Sorted(e.r.b),
                        s, [ok |-> p.ok, parse |-> p.q, docs |-> m, boosts |-> p.b])
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
