------------------------------- MODULE Query -------------------------------
(* The meaning of queries and filters: which documents of a reader match.
   A query is a record with field q naming its kind; terms are numbers in byte
   order, patterns and prefixes byte sequences; E.voc gives the bytes of every
   term.  Sem yields [lo, hi]: documents that must and that may match; they
   differ only where the documentation leaves a choice (repeated terms in a
   sloppy phrase, nearness of spans of varying length).                      *)
EXTENDS Docs, TLC

(* ---------------------------------------------------------- words and patterns *)
StartsWith(w, p) == Len(w) >= Len(p) /\ \A i \in 1 .. Len(p) : w[i] = p[i]
(* wildcard patterns: '*' (42) any bytes, '?' (63) one byte *)
RECURSIVE Wild(_, _, _, _)
Wild(p, i, w, j) ==
  IF i > Len(p) THEN j > Len(w)
  ELSE IF p[i] = 42 THEN \E k \in j .. Len(w) + 1 : Wild(p, i + 1, w, k)
  ELSE j <= Len(w) /\ (p[i] = 63 \/ p[i] = w[j]) /\ Wild(p, i + 1, w, j + 1)
(* edit distance, row by row *)
Min2(a, b) == IF a < b THEN a ELSE b
EditDistance(a, b) ==
  LET row(prev, x) == FoldLeft(LAMBDA acc, j :
                        LET del == prev[j + 1] + 1
                            ins == acc[j] + 1
                            sub == prev[j] + (IF b[j] = x THEN 0 ELSE 1)
                        IN Append(acc, Min2(Min2(del, ins), sub)),
                      <<prev[1] + 1>>, [j \in 1 .. Len(b) |-> j])
      last == FoldLeft(LAMBDA prev, x : row(prev, x), [j \in 1 .. Len(b) + 1 |-> j - 1], a)
  IN last[Len(b) + 1]
(* similarity of w to x given the prefix pl they must share: 1 - distance of the rest / (pl + length of the
   shorter rest) must exceed num/den; "border" where it is equal *)
FuzzyClass(x, w, pl, num, den) ==
  IF pl >= Len(x) THEN IF w = x THEN "in" ELSE "out"
  ELSE IF ~StartsWith(w, SubSeq(x, 1, pl)) THEN "out"
  ELSE LET a == SubSeq(w, pl + 1, Len(w)) b == SubSeq(x, pl + 1, Len(x))
           len == pl + Min2(Len(a), Len(b))
           d == EditDistance(a, b)
       IN IF len = 0 THEN "out"
          ELSE LET l == (len - d) * den r == num * len
               IN IF l > r THEN "in" ELSE IF l = r THEN "border" ELSE "out"
(* plain decimal numbers [+-]d*[.d*], in hundredths *)
Digit(c) == c \in 48 .. 57
NumSplit(w) ==
  LET sg == Len(w) > 0 /\ w[1] \in {43, 45}
      body == IF sg THEN SubSeq(w, 2, Len(w)) ELSE w
      dot == {i \in 1 .. Len(body) : body[i] = 46}
      ip == IF dot = {} THEN body ELSE SubSeq(body, 1, Min(dot) - 1)
      fp == IF dot = {} THEN <<>> ELSE SubSeq(body, Min(dot) + 1, Len(body))
  IN [neg |-> Len(w) > 0 /\ w[1] = 45, ip |-> ip, fp |-> fp]
IsNum(w) == LET s == NumSplit(w) IN
            /\ \A i \in 1 .. Len(s.ip) : Digit(s.ip[i])
            /\ \A j \in 1 .. Len(s.fp) : Digit(s.fp[j])
            /\ Len(s.ip) + Len(s.fp) > 0
DecVal(q) == FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, q)
NumVal(w) == LET s == NumSplit(w)
                 f == CASE Len(s.fp) = 0 -> 0 [] Len(s.fp) = 1 -> 10 * DecVal(s.fp) [] OTHER -> DecVal(SubSeq(s.fp, 1, 2))
                 v == 100 * DecVal(s.ip) + f
             IN IF s.neg THEN 0 - v ELSE v

(* ---------------------------------------------------------- term sets *)
InRange(t, q) ==   \* string ranges: terms are numbered in byte order, 0 = no bound
  /\ q.lo # 0 => IF q.il = 1 THEN t >= q.lo ELSE t > q.lo
  /\ q.hi # 0 => IF q.iu = 1 THEN t <= q.hi ELSE t < q.hi
InTyped(E, t, q) ==
  LET lo == IF q.lo = 0 THEN <<>> ELSE E.voc[q.lo]
      hi == IF q.hi = 0 THEN <<>> ELSE E.voc[q.hi]
  IN IF (q.lo = 0 \/ IsNum(lo)) /\ (q.hi = 0 \/ IsNum(hi))
     THEN IsNum(E.voc[t]) /\ LET v == NumVal(E.voc[t]) IN
            /\ q.lo # 0 => IF q.il = 1 THEN v >= NumVal(lo) ELSE v > NumVal(lo)
            /\ q.hi # 0 => IF q.iu = 1 THEN v <= NumVal(hi) ELSE v < NumVal(hi)
     ELSE InRange(t, q)
Expand(E, q) ==   \* the terms a multi-term query stands for: [lo, hi]
  LET V == 1 .. Len(E.voc) both(S) == [lo |-> S, hi |-> S] IN
  CASE q.q \in {"T", "ST"} -> both({q.t})
    [] q.q \in {"MT", "SM"} -> both(ToSet(q.ts))
    [] q.q \in {"PX", "SP"} -> both({t \in V : StartsWith(E.voc[t], q.p)})
    [] q.q = "WC" -> both({t \in V : Wild(q.p, 1, E.voc[t], 1)})
    [] q.q = "FZ" -> [lo |-> {t \in V : FuzzyClass(q.p, E.voc[t], q.pl, q.num, q.den) = "in"},
                      hi |-> {t \in V : FuzzyClass(q.p, E.voc[t], q.pl, q.num, q.den) # "out"}]
    [] q.q \in {"RG", "RF"} -> both({t \in V : InRange(t, q)})
    [] q.q \in {"TR", "TF"} -> both({t \in V : InTyped(E, t, q)})

(* ---------------------------------------------------------- positions: phrases and spans.
   tk is the token sequence of the field in the document *)
PosOf(tk, T) == {tk[i][2] : i \in {j \in 1 .. Len(tk) : tk[j][1] \in T}}
PhraseParts(tk, q) == TLCEval([i \in 1 .. Len(q.ps) |-> {p - q.ps[i][1] : p \in PosOf(tk, ToSet(q.ps[i][2]))}])
Repeats(q) == \E i, j \in 1 .. Len(q.ps) : i # j /\ ToSet(q.ps[i][2]) \cap ToSet(q.ps[j][2]) # {}
RECURSIVE Pick(_, _, _, _, _)
Pick(parts, offs, i, chosen, slop) ==   \* positions for parts i.., pairwise distinct where the offsets differ, within the slop
  IF i > Len(parts)
  THEN LET a == {c[1] : c \in chosen} IN Max(a) - Min(a) <= slop
  ELSE \E x \in parts[i] :
         /\ \A c \in chosen : c[2] = offs[i] \/ c[1] + c[2] # x + offs[i]
         /\ Pick(parts, offs, i + 1, chosen \cup {<<x, offs[i]>>}, slop)
Window(parts, slop) ==
  \E lo \in UNION ToSet(parts) : \A i \in 1 .. Len(parts) : \E x \in parts[i] : lo <= x /\ x <= lo + slop
PhraseMust(tk, q) ==
  IF q.ps = <<>> THEN FALSE
  ELSE IF q.slop > 0 /\ Len(q.ps) > 1 /\ Repeats(q) THEN FALSE ELSE Window(PhraseParts(tk, q), q.slop)
PhraseMay(tk, q) ==
  IF q.ps = <<>> THEN FALSE
  ELSE IF q.slop > 0 /\ Len(q.ps) > 1 /\ Repeats(q)
  THEN Pick(PhraseParts(tk, q), [i \in 1 .. Len(q.ps) |-> q.ps[i][1]], 1, {}, q.slop)
  ELSE Window(PhraseParts(tk, q), q.slop)

LexLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RECURSIVE Spans(_, _, _)
(* all spans <<start, end>> of the query in the tokens tkf (field -> tokens) *)
Near(parts, slop, inorder) ==
  LET step(acc, S) ==   \* acc: partial choices <<start, end, last span, sum of lengths>>
        {<<Min2(a[1], x[1]), Max({a[2], x[2]}), x, a[4] + x[2] - x[1]>> :
            <<a, x>> \in {ax \in acc \X S : inorder = 0 \/ LexLe(ax[1][3], ax[2])}}
      init == {<<x[1], x[2], x, x[2] - x[1]>> : x \in parts[1]}
      all == FoldLeft(step, init, Tail(parts))
      endof(a) == IF inorder = 1 THEN a[3][2] ELSE a[2]
  IN {<<a[1], endof(a)>> : a \in {b \in all : endof(b) - b[1] - b[4] <= slop}}
Spans(E, q, tkf) ==
  CASE q.q \in {"ST", "SM", "SP"} ->
         LET tk == IF q.f \in DOMAIN tkf THEN tkf[q.f] ELSE <<>> T == Expand(E, q).lo IN {<<p, p + 1>> : p \in PosOf(tk, T)}
    [] q.q = "SF" -> {x \in Spans(E, q.a, tkf) : x[2] <= q.end}
    [] q.q = "SO" -> UNION {Spans(E, q.as[i], tkf) : i \in 1 .. Len(q.as)}
    [] q.q = "SN" -> IF q.as = <<>> THEN {} ELSE
                     LET parts == TLCEval([i \in 1 .. Len(q.as) |-> Spans(E, q.as[i], tkf)]) IN
                     IF \E i \in 1 .. Len(parts) : parts[i] = {} THEN {} ELSE
                     IF Len(parts) = 1 THEN parts[1] ELSE Near(parts, q.slop, q.io)
    [] q.q = "SX" -> LET ex == TLCEval(Spans(E, q.b, tkf)) IN
                     {x \in Spans(E, q.a, tkf) : \A y \in ex : y[2] <= x[1] \/ x[2] <= y[1]}
RECURSIVE UnitSpans(_)
UnitSpans(q) == CASE q.q \in {"ST", "SM", "SP"} -> TRUE
                  [] q.q = "SF" -> UnitSpans(q.a) [] q.q = "SX" -> UnitSpans(q.a)
                  [] q.q = "SO" -> \A i \in 1 .. Len(q.as) : UnitSpans(q.as[i])
                  [] q.q = "SN" -> Len(q.as) = 1 /\ UnitSpans(q.as[1])
RECURSIVE ExactSpans(_)
ExactSpans(q) == CASE q.q \in {"ST", "SM", "SP"} -> TRUE
                   [] q.q = "SF" -> ExactSpans(q.a) [] q.q = "SX" -> ExactSpans(q.a)
                   [] q.q = "SO" -> \A i \in 1 .. Len(q.as) : ExactSpans(q.as[i])
                   [] q.q = "SN" -> \A i \in 1 .. Len(q.as) : UnitSpans(q.as[i]) /\ ExactSpans(q.as[i])

(* ---------------------------------------------------------- queries.
   L: the live slots; tks[i]: the tokens of slot i by field *)
SpanKinds == {"ST", "SM", "SP", "SF", "SO", "SN", "SX"}
WordKinds == {"T", "MT", "PX", "WC", "FZ", "RG", "TR"}
Field(tkf, f) == IF f \in DOMAIN tkf THEN tkf[f] ELSE <<>>
Holding(L, tks, f, T) == {i \in L : \E k \in 1 .. Len(Field(tks[i], f)) : Field(tks[i], f)[k][1] \in T}
RECURSIVE Sem(_, _, _, _)
RECURSIVE SemF(_, _, _, _)
SemF(E, x, L, tks) ==
  CASE x.q \in {"RF", "TF"} -> LET T == TLCEval(Expand(E, x)) S == Holding(L, tks, x.f, T.lo) IN [lo |-> S, hi |-> S]
    [] x.q = "QF" -> Sem(E, x.a, L, tks)
Sem(E, q, L, tks) ==
  CASE q.q \in WordKinds ->
         LET T == TLCEval(Expand(E, q)) IN [lo |-> Holding(L, tks, q.f, T.lo), hi |-> Holding(L, tks, q.f, T.hi)]
    [] q.q = "P" ->
         LET tk(i) == Field(tks[i], q.f) IN
         [lo |-> {i \in L : PhraseMust(tk(i), q)}, hi |-> {i \in L : PhraseMay(tk(i), q)}]
    [] q.q \in SpanKinds ->
         LET S == TLCEval({i \in L : Spans(E, q, tks[i]) # {}}) IN [lo |-> IF ExactSpans(q) THEN S ELSE {}, hi |-> S]
    [] q.q = "MA" -> [lo |-> L, hi |-> L]
    [] q.q = "ANY" -> [lo |-> {}, hi |-> L]
    [] q.q = "CS" -> SemF(E, q.x, L, tks)
    [] q.q = "FQ" -> LET a == TLCEval(Sem(E, q.a, L, tks)) b == TLCEval(SemF(E, q.x, L, tks)) IN
                     [lo |-> a.lo \cap b.lo, hi |-> a.hi \cap b.hi]
    [] q.q = "B" ->
         LET n == Len(q.c)
             s == TLCEval([i \in 1 .. n |-> Sem(E, q.c[i][2], L, tks)])
             must == {i \in 1 .. n : q.c[i][1] = 1}
             may == {i \in 1 .. n : q.c[i][1] = 0}
             not == {i \in 1 .. n : q.c[i][1] = 2}
             pos(v(_)) == IF n = 0 THEN {}
                          ELSE IF must # {} THEN {d \in L : \A i \in must : d \in v(i)}
                          ELSE IF may # {} THEN {d \in L : \E i \in may : d \in v(i)}
                          ELSE L
             lo(i) == s[i].lo
             hi(i) == s[i].hi
         IN [lo |-> {d \in pos(lo) : \A i \in not : d \notin s[i].hi},
             hi |-> {d \in pos(hi) : \A i \in not : d \notin s[i].lo}]
=============================================================================
