----------------------------- MODULE Highlight -----------------------------
(* Highlighting: the places of a text a query marks, how the marked text reads, and
   what a list of excerpts must be.  Tokens of a text: <<term, position, start, end>>,
   offsets in bytes.  A place is <<first, last>> position. *)
EXTENDS Query

Bytes(text, i, j) == SubSeq(text, i + 1, j)        \* the bytes from offset i up to j
(* what q marks in field f: [r: places, exact: these are all of them and no others, may: positions
   that may be marked, must: something is marked] *)
All(S) == [r |-> S, exact |-> TRUE, may |-> UNION {x[1] .. x[2] : x \in S}, must |-> S # {}]
None == All({})
Some(may, must) == [r |-> {}, exact |-> may = {}, may |-> may, must |-> must]
Points(P) == {<<p, p>> : p \in P}
Join(a, b) == IF a.exact /\ b.exact THEN All(a.r \cup b.r) ELSE [r |-> {}, exact |-> FALSE, may |-> a.may \cup b.may, must |-> a.must \/ b.must]
RECURSIVE SpanTerms(_, _)
SpanTerms(E, q) == CASE q.q \in {"ST", "SM", "SP"} -> Expand(E, q).lo [] q.q \in {"SF", "SX"} -> SpanTerms(E, q.a)
                     [] OTHER -> UNION {SpanTerms(E, q.as[i]) : i \in DOMAIN q.as}
RECURSIVE SpanField(_)
SpanField(q) == CASE q.q \in {"ST", "SM", "SP"} -> q.f [] q.q \in {"SF", "SX"} -> SpanField(q.a) [] OTHER -> IF q.as = <<>> THEN "" ELSE SpanField(q.as[1])
RECURSIVE Marks(_, _, _, _)
Marks(E, q, f, tkf) ==
  LET tk == IF f \in DOMAIN tkf THEN tkf[f] ELSE <<>> IN
  CASE q.q \in {"T", "MT", "PX", "WC", "RG", "TR", "FZ"} ->
         IF q.f # f THEN None
         ELSE LET x == Expand(E, q) lo == PosOf(tk, x.lo) hi == PosOf(tk, x.hi) IN IF lo = hi THEN All(Points(lo)) ELSE Some(hi, lo # {})
    [] q.q = "P" ->
         IF q.f # f \/ q.ps = <<>> THEN None
         ELSE LET parts == TLCEval(PhraseParts(tk, q))
                  offs == {q.ps[i][1] : i \in DOMAIN q.ps}
                  at(x) == <<x + Min(offs), x + Max(offs)>>
                  starts == UNION ToSet(parts)
                  win == {x \in starts : \A i \in DOMAIN parts : \E y \in parts[i] : x <= y /\ y <= x + q.slop}
              IN IF q.slop = 0 \/ Len(q.ps) = 1 THEN All({at(x) : x \in {y \in starts : \A i \in DOMAIN parts : y \in parts[i]}})
                 ELSE Some(UNION {(x + Min(offs)) .. (x + q.slop + Max(offs)) : x \in win}, PhraseMust(tk, q))
    [] q.q \in SpanKinds ->
         IF SpanField(q) # f THEN None
         ELSE IF Len(tk) > 12 /\ ~UnitSpans(q) THEN Some(PosOf(tk, SpanTerms(E, q)), FALSE)     \* too many choices to enumerate
         ELSE LET S == TLCEval(Spans(E, q, tkf))
                  inside == UNION {x[1] .. x[2] - 1 : x \in S}
                  pos == PosOf(tk, SpanTerms(E, q)) \cap inside
              IN IF UnitSpans(q) THEN All(Points(pos)) ELSE Some(pos, ExactSpans(q) /\ pos # {})
    [] q.q = "B" -> FoldLeft(LAMBDA acc, c : IF c[1] = 2 THEN acc ELSE Join(acc, TLCEval(Marks(E, c[2], f, tkf))), None, q.c)
    [] q.q = "FQ" -> LET m == TLCEval(Marks(E, q.a, f, tkf)) IN Some(m.may, FALSE)     \* whether a filtered query marks is not specified
    [] OTHER -> None
(* places with a position in common are one *)
Merge(S) == LET s == SetToSortSeq(S, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])) IN
            FoldLeft(LAMBDA acc, x : LET n == Len(acc) IN IF n > 0 /\ x[1] <= acc[n][2] THEN [acc EXCEPT ![n] = <<@[1], IF x[2] > @[2] THEN x[2] ELSE @[2]>>] ELSE Append(acc, x), <<>>, s)
Offs(tk, x) == <<tk[x[1] + 1][3], tk[x[2] + 1][4]>>
(* marked text read back: the plain text and the marked byte ranges in it *)
Here(x, i, w) == w # <<>> /\ x # <<>> /\ i <= Len(x) /\ x[i] = w[1] /\ i + Len(w) - 1 <= Len(x) /\ SubSeq(x, i, i + Len(w) - 1) = w
ReadStep(x, pre, post, a, i) ==
  IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
  ELSE IF Here(x, i, pre) THEN IF a.open >= 0 THEN [a EXCEPT !.ok = FALSE] ELSE [a EXCEPT !.open = Len(a.plain), !.skip = Len(pre) - 1]
  ELSE IF Here(x, i, post) THEN IF a.open < 0 THEN [a EXCEPT !.ok = FALSE] ELSE [a EXCEPT !.marks = Append(@, <<a.open, Len(a.plain)>>), !.open = -1, !.skip = Len(post) - 1]
  ELSE [a EXCEPT !.plain = Append(@, x[i])]
ReadAll(x, pre, post) == LET a == TLCEval(FoldLeft(LAMBDA y, i : ReadStep(x, pre, post, y, i), [plain |-> <<>>, marks |-> <<>>, open |-> -1, ok |-> TRUE, skip |-> 0], [i \in DOMAIN x |-> i])) IN [a EXCEPT !.ok = @ /\ a.open < 0]
(* is the byte range m one that m0 allows to be marked; exact: the ranges of an exact m0 *)
Ranges(m0, tk) == IF m0.exact THEN {Offs(tk, x) : x \in ToSet(Merge(m0.r))} ELSE {}
MayMark(m0, exact, tk, m) == IF m0.exact THEN m \in exact
                      ELSE \E a \in DOMAIN tk : tk[a][3] = m[1] /\ \E b \in a .. Len(tk) : tk[b][4] = m[2] /\ \A p \in {tk[a][2], tk[b][2]} : p \in m0.may
(* the whole text with all marks *)
WholeOk(m0, tk, text, x, pre, post) ==
  LET a == TLCEval(ReadAll(x, pre, post)) IN
  /\ a.ok /\ a.plain = text
  /\ IF m0.exact THEN a.marks = LET r == Merge(m0.r) IN [i \in DOMAIN r |-> Offs(tk, r[i])]
     ELSE (\A m \in ToSet(a.marks) : MayMark(m0, {}, tk, m)) /\ (m0.must => a.marks # <<>>)
(* excerpts, each a part of the text in order, without overlap *)
RECURSIVE PlacedFrom(_, _, _, _, _, _, _, _)
PlacedFrom(m0, rs, tk, text, xs, k, from, t) ==
  IF k > Len(xs) THEN TRUE
  ELSE LET x == xs[k]
           lead == Here(x, 1, t.ell)
           y == IF lead THEN SubSeq(x, Len(t.ell) + 1, Len(x)) ELSE x
           trail == Len(y) >= Len(t.ell) /\ Here(y, Len(y) - Len(t.ell) + 1, t.ell)
           z == IF trail THEN SubSeq(y, 1, Len(y) - Len(t.ell)) ELSE y
           a == TLCEval(ReadAll(z, t.pre, t.post))
           n == Len(a.plain)
           ok(s) == /\ (n = 0 \/ text[s + 1] = a.plain[1]) /\ Bytes(text, s, s + n) = a.plain /\ (t.ell # <<>> => (lead <=> s > 0) /\ (trail <=> s + n < Len(text)))
                    /\ \A m \in ToSet(a.marks) : MayMark(m0, rs, tk, <<m[1] + s, m[2] + s>>)
           S == {s \in from .. Len(text) - n : ok(s)}
       IN a.ok /\ S # {} /\ PlacedFrom(m0, rs, tk, text, xs, k + 1, Min(S) + n, t)
Marked(xs, t) == \E k \in DOMAIN xs : ReadAll(xs[k], t.pre, t.post).marks # <<>>
ExcerptsOk(m0, tk, text, xs, num, t) == Len(xs) >= 1 /\ Len(xs) <= num /\ PlacedFrom(m0, TLCEval(Ranges(m0, tk)), tk, text, xs, 1, 0, t) /\ (m0.must => Marked(xs, t))
=============================================================================
