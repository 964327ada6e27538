--------------------------- MODULE AnalysisTrace ---------------------------
EXTENDS TraceBase, Analysis
(* streams k: [b text, T the tokens it owes, i how many were taken, ex whether the
   tokens are fully specified, base]; analysers a: a chain or a per-field table;
   mappers m: the pairs so far. *)
R == 0 .. 7
None3 == [b |-> <<>>, T |-> <<>>, i |-> 0, ex |-> TRUE, last |-> 0]
EpInit(E) == [t |-> [k \in R |-> None3], c |-> [k \in R |-> <<>>], a |-> [k \in R |-> <<>>], m |-> [k \in R |-> <<>>]]
Exact(ch) == ch # <<>> /\ ch[1].k \notin {"leg", "mbleg"}
Tab(sm) == [w \in {sm[i][1] : i \in DOMAIN sm} |-> (CHOOSE p \in ToSet(sm) : p[1] = w)[2]]
Stream(b, ch, sm, valid) == [b |-> b, T |-> IF Exact(ch) /\ valid = 1 THEN TLCEval(Tokens(b, ch, Tab(sm))) ELSE <<>>, i |-> 0, ex |-> Exact(ch) /\ valid = 1, last |-> 0, ch |-> ch]
RECURSIVE ChainOf(_, _, _)
ChainOf(s, a, f) ==
  LET x == s.a[a] IN
  IF x.k = "chain" THEN x.ch
  ELSE LET z == {i \in DOMAIN x.f : x.f[i][1] = f} IN ChainOf(s, IF z = {} THEN x.d ELSE x.f[Max(z)][2], f)
Plain(ch) == \A i \in DOMAIN ch : ch[i].k \in {"leg", "mbleg", "ws", "lt", "mbws", "mblt", "std", "mbstd", "ustd", "non"}
(* streams that are not fully specified: bounds, order, quoting *)
Loose(sm, tk) ==
  LET T == [i \in DOMAIN tk |-> [t |-> tk[i][1], s |-> tk[i][2], e |-> tk[i][3], inc |-> tk[i][4]]] IN
  /\ Bounded(sm.b, T) /\ Forward(T) /\ \A i \in DOMAIN tk : tk[i][5] = Len(tk[i][1]) /\ Len(tk[i][1]) <= MaxWord
  /\ (T # <<>> => T[1].s >= sm.last)
  /\ (Plain(sm.ch) => /\ Disjoint(T) /\ \A i \in DOMAIN T : T[i].inc = 1 /\ Quotes(sm.b, T))
Judge(e, s, E) ==
  LET k == e.a  r == e.r IN
  CASE e.op = "ts" -> Ok([s EXCEPT !.c[k] = e.ch])
    [] e.op = "reset" -> Ok([s EXCEPT !.t[k] = Stream(e.b, s.c[k], r.st, e.valid)])
    [] e.op = "next" ->
         LET sm == s.t[k]  n == Len(r.t) IN
         IF sm.ex THEN
           LET m == Min({e.n, Len(sm.T) - sm.i}) IN
           Expect(n = m /\ (\A i \in 1 .. m : Same(r.t[i], sm.T[sm.i + i])) /\ r.end = (IF m < e.n THEN 1 ELSE 0), [s EXCEPT !.t[k].i = @ + m], [tokens |-> SubSeq(sm.T, sm.i + 1, sm.i + m), text |-> sm.b])
         ELSE Expect(Loose(sm, r.t), [s EXCEPT !.t[k].last = IF n = 0 THEN @ ELSE r.t[n][2]], [text |-> sm.b])
    [] e.op = "an" -> Ok([s EXCEPT !.a[k] = [k |-> "chain", ch |-> e.ch]])
    [] e.op = "pa" -> Ok([s EXCEPT !.a[k] = [k |-> "chain", ch |-> [i \in DOMAIN e.ch |-> IF e.ch[i].k = "stop" /\ e.full = 1 THEN [k |-> "stop", w |-> r.w] ELSE e.ch[i]]]])
    [] e.op = "pfa" -> Ok([s EXCEPT !.a[k] = [k |-> "pf", d |-> e.d, f |-> e.f]])
    [] e.op = "get" -> LET ch == ChainOf(s, e.an, e.f) IN Ok([s EXCEPT !.t[k] = Stream(e.b, ch, r.st, e.valid), !.c[k] = ch])
    [] e.op \in {"tsfree", "afree", "mmfree"} -> Ok(s)
    [] e.op = "mm" -> Ok([s EXCEPT !.m[k] = <<>>])
    [] e.op = "mmadd" -> IF e.p = <<>> THEN Expect(e.err # "", s, "an empty pattern is refused") ELSE Ok([s EXCEPT !.m[k] = Append(@, <<e.p, e.x>>)])
    [] e.op = "mmmap" -> LET v == Map(s.m[k], e.b) IN
         Expect(r.len = Len(r.v) /\ r.v = v, s, [mapped |-> v])
    [] e.op = "mmdyn" -> LET v == Map(s.m[k], e.b) IN Expect(r.v = v, s, [mapped |-> v])
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
