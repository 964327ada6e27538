------------------------------- MODULE Parser -------------------------------
(* The query language: from the bytes of a query string to a query of Query.tla.
   A configuration C: or (juxtaposition means "or"), wl (patterns and ranges of
   tokenised fields are put in lower case), any (unknown fields are allowed), kw
   (AND OR NOT REQ are operators), typed (typed ranges), slop (of phrases that
   give none), all, def, tok (fields; tokall: every field is tokenised), an and dan (analysis chains, by field and for the others).  voc: the
   words of the documents.  A parse is [ok, i, q, b]: q is <<>> where nothing was
   left of the text (unknown fields, only stop words), else <<query>>; b the
   boosts of its parts in 4096ths, -1 where the text of a number is not plain. *)
EXTENDS Query
A == INSTANCE Analysis

(* ---- words and operators ---- *)
Special == {38, 58, 40, 41, 91, 93, 123, 125, 33, 34, 126, 94, 124, 60, 62, 61, 42, 63, 43, 45}
EndsWord == {32, 9, 40, 41, 91, 93, 123, 125, 33, 34, 126, 94, 124, 60, 62, 61}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
(* the word starting at i: [w, next, wild] *)
RECURSIVE WordAt(_, _, _, _)
WordAt(s, i, w, wild) ==
  LET c == At(s, i) d == At(s, i + 1) IN
  CASE c = 0 \/ c \in EndsWord \/ (c = 58 /\ d # 58) -> [w |-> w, next |-> i, wild |-> wild]
    [] c = 92 -> IF d = 0 THEN WordAt(s, i + 1, Append(w, 92), wild) ELSE WordAt(s, i + 2, Append(w, d), wild)
    [] c = 58 -> WordAt(s, i + 2, w \o <<58, 58>>, wild)
    [] c \in {42, 63} -> WordAt(s, i + 1, Append(w, c), TRUE)
    [] OTHER -> WordAt(s, i + 1, Append(w, c), wild)
Op(k) == [k |-> k, w |-> <<>>]
Sym(c) == CASE c = 40 -> "(" [] c = 41 -> ")" [] c = 91 -> "[" [] c = 93 -> "]" [] c = 123 -> "{" [] c = 125 -> "}" [] c = 34 -> "quote" [] c = 126 -> "~"
            [] c = 94 -> "^" [] c = 124 -> "|" [] c = 60 -> "<" [] c = 62 -> ">" [] c = 61 -> "=" [] c = 58 -> ":" [] c = 42 -> "*"
RECURSIVE Lex(_, _, _, _)
Lex(s, i, kw, acc) ==
  LET c == At(s, i) d == At(s, i + 1) IN
  CASE c = 0 -> Append(acc, Op("end"))
    [] c \in {32, 9} -> Lex(s, i + 1, kw, acc)
    [] c \in {45, 33} -> Lex(s, i + 1, kw, Append(acc, Op("NOT")))
    [] c = 43 -> Lex(s, i + 1, kw, Append(acc, Op("REQ")))
    [] c = 38 /\ d = 38 -> Lex(s, i + 2, kw, Append(acc, Op("AND")))
    [] c = 124 /\ d = 124 -> Lex(s, i + 2, kw, Append(acc, Op("OR")))
    [] (c \in Special \ {42, 63, 38}) \/ (c = 42 /\ d = 58) -> Lex(s, i + 1, kw, Append(acc, Op(Sym(c))))
    [] OTHER -> LET x == WordAt(s, i, <<>>, FALSE) IN
         Lex(s, x.next, kw, Append(acc,
           CASE kw = 1 /\ x.w = <<65, 78, 68>> -> Op("AND") [] kw = 1 /\ x.w = <<78, 79, 84>> -> Op("NOT")
             [] kw = 1 /\ x.w = <<82, 69, 81>> -> Op("REQ") [] kw = 1 /\ x.w = <<79, 82>> -> Op("OR")
             [] OTHER -> [k |-> IF x.wild THEN "wild" ELSE "word", w |-> x.w]))

(* ---- parts of queries, one field at a time; <<>> for nothing ---- *)
Ids(voc, w) == {i \in 1 .. Len(voc) : voc[i] = w}
Words(f, S) == [q |-> "MT", f |-> f, ts |-> SetToSeq(S)]
Open == [q |-> "ANY"]
Tokd(C, f) == C.tokall = 1 \/ f \in ToSet(C.tok)
Chain(C, f) == LET z == {i \in DOMAIN C.an : C.an[i][1] = f} IN IF z = {} THEN C.dan ELSE C.an[CHOOSE i \in z : TRUE][2]
Toks(C, f, w) == IF Tokd(C, f) THEN A!Tokens(w, Chain(C, f), <<>>) ELSE <<A!Tok(w, 0, Len(w), 1)>>
Low(C, f, w) == IF C.wl = 1 /\ Tokd(C, f) THEN A!LowerBytes(w) ELSE w
(* a sequence of tokens as a phrase: where each starts, with its alternatives *)
RECURSIVE Place(_, _, _, _)
Place(voc, T, i, ps) ==
  IF i > Len(T) THEN ps
  ELSE LET n == Len(ps) IN
       IF T[i].inc = 0 /\ n > 0 THEN Place(voc, T, i + 1, [ps EXCEPT ![n][2] = @ \o SetToSeq(Ids(voc, T[i].t))])
       ELSE Place(voc, T, i + 1, Append(ps, <<IF n = 0 THEN 0 ELSE ps[n][1] + T[i].inc, SetToSeq(Ids(voc, T[i].t))>>))
Phrase(f, ps, slop) == [q |-> "P", f |-> f, slop |-> slop, ps |-> ps]
(* a word the analyser splits is a phrase with one position of slop per split *)
TermQ(voc, C, f, w) ==
  LET T == TLCEval(Toks(C, f, w)) IN
  CASE T = <<>> -> <<>>
    [] Len(T) = 1 -> <<Words(f, Ids(voc, T[1].t))>>
    [] OTHER -> <<Phrase(f, Place(voc, T, 1, <<>>), Cardinality({i \in 2 .. Len(T) : T[i].inc # 0}))>>
PlainNum(w) == IsNum(w) /\ w[1] \notin {43, 45} /\ Len(w) <= 5 /\ Len(NumSplit(w).fp) <= 2
FuzzyQ(C, f, w, sim) ==
  LET T == TLCEval(Toks(C, f, w)) z == IF sim = <<>> THEN 50 ELSE IF PlainNum(sim[1]) THEN NumVal(sim[1]) ELSE 1000 IN
  IF T = <<>> THEN <<>>
  ELSE IF z >= 100 THEN <<Open>>
  ELSE <<[q |-> "FZ", f |-> f, p |-> T[1].t, pl |-> 0, num |-> IF z = 0 THEN 50 ELSE z, den |-> 100]>>
WildQ(C, f, w) == IF w = <<42>> THEN <<[q |-> "MA"]>> ELSE <<[q |-> "WC", f |-> f, p |-> Low(C, f, w)]>>
(* ranges; bounds <<>> or <<word>> *)
RECURSIVE BytesLess(_, _)
BytesLess(a, b) == CASE b = <<>> -> FALSE [] a = <<>> -> TRUE [] a[1] # b[1] -> a[1] < b[1] [] OTHER -> BytesLess(Tail(a), Tail(b))
Numeric(b) == b = <<>> \/ IsNum(b[1])
Worded(b) == b = <<>> \/ (Len(b[1]) > 0 /\ (b[1][1] \in 97 .. 122 \/ b[1][1] \in 65 .. 90) /\ b[1][1] \notin {105, 110, 73, 78})
Short(b) == b = <<>> \/ (Len(b[1]) <= 6 /\ Len(NumSplit(b[1]).fp) <= 2)
Below(num, a, b) == IF num THEN NumVal(a) < NumVal(b) ELSE BytesLess(a, b)
RangeQ(voc, C, f, lo0, hi0, il, iu) ==
  LET lo == IF lo0 = <<>> THEN lo0 ELSE <<Low(C, f, lo0[1])>>
      hi == IF hi0 = <<>> THEN hi0 ELSE <<Low(C, f, hi0[1])>>
      num == C.typed = 1 /\ Numeric(lo) /\ Numeric(hi)
      In(w) == /\ (num => IsNum(w))
               /\ (lo # <<>> => ~Below(num, w, lo[1]) /\ (il \/ Below(num, lo[1], w)))
               /\ (hi # <<>> => ~Below(num, hi[1], w) /\ (iu \/ Below(num, w, hi[1])))
  IN IF C.typed = 1 /\ ((num /\ ~(Short(lo) /\ Short(hi))) \/ ~((Numeric(lo) \/ Worded(lo)) /\ (Numeric(hi) \/ Worded(hi)))) THEN [ok |-> TRUE, open |-> TRUE, q |-> <<Open>>]
     ELSE IF lo # <<>> /\ hi # <<>> /\ Below(num, hi[1], lo[1]) THEN [ok |-> FALSE, open |-> FALSE, q |-> <<>>]
     ELSE [ok |-> TRUE, open |-> FALSE, q |-> <<Words(f, {i \in 1 .. Len(voc) : In(voc[i])})>>]
(* a phrase: ph is a sequence of [gap, words] *)
RECURSIVE Lay(_, _, _, _, _, _, _)
Lay(voc, C, f, ph, i, inc0, acc) ==
  IF i > Len(ph) THEN acc
  ELSE LET sl == IF inc0 # 0 THEN acc.slop + 1 ELSE acc.slop       \* the words before were all dropped
           inc == inc0 + ph[i].gap + 1
           one == Len(ph[i].ws) = 1
           T0 == TLCEval(IF one THEN Toks(C, f, ph[i].ws[1])
                         ELSE FlattenSeq([j \in DOMAIN ph[i].ws |-> LET u == Toks(C, f, ph[i].ws[j]) IN IF u = <<>> THEN <<>> ELSE <<u[1]>>]))
           T == TLCEval([j \in DOMAIN T0 |-> IF j = 1 THEN [T0[1] EXCEPT !.inc = inc] ELSE IF one THEN T0[j] ELSE [T0[j] EXCEPT !.inc = 0]])
           extra == IF one THEN Cardinality({j \in 2 .. Len(T) : T[j].inc = 0}) ELSE 0
       IN Lay(voc, C, f, ph, i + 1, IF T = <<>> THEN inc ELSE 0, [ps |-> Place(voc, T, 1, acc.ps), slop |-> sl + extra])
PhraseQ(voc, C, f, ph, slop) ==
  CASE ph = <<>> -> <<>>
    [] Len(ph) = 1 /\ Len(ph[1].ws) = 1 -> TermQ(voc, C, f, ph[1].ws[1])
    [] Len(ph) = 1 -> LET fst == TLCEval(FlattenSeq([j \in DOMAIN ph[1].ws |-> LET u == Toks(C, f, ph[1].ws[j]) IN IF u = <<>> THEN <<>> ELSE <<u[1].t>>])) IN
                      IF fst = <<>> THEN <<[q |-> "B", c |-> <<>>]>> ELSE <<Words(f, UNION {Ids(voc, fst[j]) : j \in DOMAIN fst})>>
    [] OTHER -> LET l == TLCEval(Lay(voc, C, f, ph, 1, 0, [ps |-> <<>>, slop |-> slop])) IN <<Phrase(f, l.ps, l.slop)>>

(* ---- the grammar ---- *)
Got(i, q, b) == [ok |-> TRUE, open |-> FALSE, i |-> i, q |-> q, b |-> b]
Bad == [ok |-> FALSE, open |-> FALSE, i |-> 0, q |-> <<>>, b |-> <<>>]
Leafs(q) == IF q = <<>> \/ q[1].q = "MA" \/ (q[1].q = "B" /\ q[1].c = <<>>) THEN <<>> ELSE <<4096>>
(* the same part on every field: any of them *)
OnFields(i, F, mk(_)) ==
  LET qs == TLCEval([j \in DOMAIN F |-> mk(F[j])])
      some == SelectSeq(qs, LAMBDA x : x # <<>>)
      b == FlattenSeq([j \in DOMAIN qs |-> Leafs(qs[j])])
  IN CASE some = <<>> -> Got(i, <<>>, <<>>)
       [] Len(F) = 1 -> Got(i, some[1], b)
       [] OTHER -> Got(i, <<[q |-> "B", c |-> [j \in DOMAIN some |-> <<0, some[j][1]>>]]>>, b)
Ranges(i, F, mk(_)) ==
  LET qs == TLCEval([j \in DOMAIN F |-> mk(F[j])]) r == OnFields(i, F, LAMBDA f : LET j == CHOOSE x \in DOMAIN F : F[x] = f IN qs[j].q) IN
  IF \E j \in DOMAIN qs : qs[j].open THEN [r EXCEPT !.open = TRUE] ELSE IF \E j \in DOMAIN qs : ~qs[j].ok THEN Bad ELSE r
Join(x, y) == [y EXCEPT !.open = @ \/ x.open]
Boolean(cs) ==
  CASE cs = <<>> -> <<>>
    [] Len(cs) = 1 -> IF cs[1][1] = 2 THEN <<[q |-> "B", c |-> <<cs[1], <<1, [q |-> "MA"]>>>>]>> ELSE <<cs[1][2]>>
    [] OTHER -> <<[q |-> "B", c |-> cs]>>
AddAnd(cs, c) == (IF Len(cs) = 1 /\ cs[1][1] # 2 THEN <<<<1, cs[1][2]>>>> ELSE cs) \o <<IF c[1] = 2 THEN c ELSE <<1, c[2]>>>>
Starts == {"REQ", "NOT", "word", "wild", "(", "quote", "[", "{", "<", ">", "*"}
RECURSIVE FieldList(_, _, _, _)
FieldList(C, t, i, F) ==    \* at a word: <<next, fields>> up to the colon, next = 0 if there is none
  LET f == IF (C.any = 1 \/ t[i].w \in ToSet(C.all)) /\ t[i].w \notin ToSet(F) THEN Append(F, t[i].w) ELSE F IN
  CASE t[i + 1].k = ":" -> <<i + 2, f>>
    [] t[i + 1].k = "|" /\ t[i + 2].k = "word" -> FieldList(C, t, i + 2, f)
    [] OTHER -> <<0, f>>
RECURSIVE PhWords(_, _, _, _)
PhWords(t, i, ph, gap) ==   \* up to the closing quote: [i, ph]
  LET n == Len(ph) IN
  CASE t[i].k = "quote" -> [i |-> i + 1, ph |-> ph]
    [] t[i].k = "word" -> PhWords(t, i + 1, Append(ph, [gap |-> gap, ws |-> <<t[i].w>>]), 0)
    [] t[i].k = "<" /\ t[i + 1].k = ">" -> PhWords(t, i + 2, ph, gap + 1)
    [] t[i].k = "|" /\ t[i + 1].k = "word" ->
         IF n = 0 THEN PhWords(t, i + 2, <<[gap |-> gap, ws |-> <<t[i + 1].w>>]>>, 0) ELSE PhWords(t, i + 2, [ph EXCEPT ![n].ws = Append(@, t[i + 1].w)], gap)
    [] OTHER -> [i |-> 0, ph |-> ph]
Times(b, w) == [j \in DOMAIN b |-> IF b[j] < 0 \/ ~PlainNum(w) THEN -1 ELSE LET v == NumVal(w) IN
                  IF v > 2000 \/ b[j] > 500000 THEN -1 ELSE IF (b[j] * v) % 100 = 0 THEN (b[j] * v) \div 100 ELSE -1]
RECURSIVE PQ(_, _, _, _, _)
RECURSIVE PClauses(_, _, _, _, _, _, _)
PBoosted(voc, C, t, i, F) ==
  LET r == TLCEval(PQ(voc, C, t, i, F)) IN
  IF ~r.ok \/ t[r.i].k # "^" THEN r
  ELSE IF t[r.i + 1].k # "word" THEN Bad
  ELSE [r EXCEPT !.i = @ + 2, !.b = Times(@, t[r.i + 1].w)]
(* clauses from i on; how: what joins the next one *)
PClauses(voc, C, t, i, F, cs, acc) ==
  LET how == CASE t[i].k = "AND" -> "and" [] t[i].k = "OR" -> "or" [] acc.first -> "or" [] OTHER -> IF C.or = 1 THEN "or" ELSE "and"
      j == IF t[i].k \in {"AND", "OR"} /\ ~acc.first THEN i + 1 ELSE i
      occ == CASE t[j].k = "REQ" -> 1 [] t[j].k = "NOT" -> 2 [] OTHER -> 0
      r == TLCEval(PBoosted(voc, C, t, IF occ = 0 THEN j ELSE j + 1, F))
      go == acc.first \/ t[i].k \in {"AND", "OR"} \/ t[i].k \in Starts
      cs2 == IF r.q = <<>> THEN cs ELSE IF how = "and" THEN AddAnd(cs, <<occ, r.q[1]>>) ELSE Append(cs, <<occ, r.q[1]>>)
  IN IF ~go THEN [ok |-> TRUE, open |-> acc.open, i |-> i, q |-> Boolean(cs), b |-> acc.b]
     ELSE IF ~r.ok THEN Bad
     ELSE PClauses(voc, C, t, r.i, F, cs2, [first |-> FALSE, open |-> acc.open \/ r.open, b |-> acc.b \o r.b])
Clauses(voc, C, t, i, F) == PClauses(voc, C, t, i, F, <<>>, [first |-> TRUE, open |-> FALSE, b |-> <<>>])
PQ(voc, C, t, i, F) ==
  LET k == t[i].k
      K(n) == t[i + n].k
      W(n) == t[i + n].w
      Rg(n, lo, hi, il, iu) == Ranges(i + n, F, LAMBDA f : RangeQ(voc, C, f, lo, hi, il, iu))
  IN
  CASE k = "word" /\ K(1) \in {":", "|"} ->
         LET fl == FieldList(C, t, i, <<>>) IN IF fl[1] = 0 THEN Bad ELSE PQ(voc, C, t, fl[1], fl[2])
    [] k = "word" /\ K(1) = "~" ->
         IF K(2) = "word" THEN OnFields(i + 3, F, LAMBDA f : FuzzyQ(C, f, W(0), <<W(2)>>)) ELSE OnFields(i + 2, F, LAMBDA f : FuzzyQ(C, f, W(0), <<>>))
    [] k = "word" /\ K(1) \notin {":", "|", "~"} -> OnFields(i + 1, F, LAMBDA f : TermQ(voc, C, f, W(0)))
    [] k = "wild" -> OnFields(i + 1, F, LAMBDA f : WildQ(C, f, W(0)))
    [] k = "(" -> IF K(1) = ")" THEN Got(i + 2, <<[q |-> "B", c |-> <<>>]>>, <<>>)
                  ELSE LET r == TLCEval(Clauses(voc, C, t, i + 1, F)) IN IF r.ok /\ t[r.i].k = ")" THEN [r EXCEPT !.i = @ + 1] ELSE Bad
    [] k = "*" -> IF K(1) = ":" THEN PQ(voc, C, t, i + 2, C.all) ELSE Bad
    [] k = "quote" ->
         LET first == K(1) = "word" \/ (K(1) = "<" /\ K(2) = ">")
             p == IF K(1) = "quote" THEN [i |-> i + 2, ph |-> <<>>] ELSE IF ~first THEN [i |-> 0, ph |-> <<>>]
                  ELSE IF K(1) = "word" THEN PhWords(t, i + 1, <<>>, 0) ELSE PhWords(t, i + 3, <<>>, 0)
             sl == IF p.i # 0 /\ t[p.i].k = "~" THEN 1 ELSE 0
             n == IF sl = 1 /\ t[p.i + 1].k = "word" THEN t[p.i + 1].w ELSE <<>>
             plain == n # <<>> /\ Len(n) <= 4 /\ \A x \in ToSet(n) : Digit(x)
         IN IF p.i = 0 \/ (sl = 1 /\ t[p.i + 1].k # "word") THEN Bad
            ELSE LET r == OnFields(p.i + 2 * sl, F, LAMBDA f : PhraseQ(voc, C, f, p.ph, IF sl = 1 THEN IF plain THEN DecVal(n) ELSE 0 ELSE C.slop))
                 IN IF sl = 1 /\ ~plain THEN [r EXCEPT !.open = TRUE] ELSE r
    [] k \in {"[", "{"} ->
         IF K(1) = "word" /\ K(2) = "word" /\ K(3) \in {"]", "}"} THEN Rg(4, <<W(1)>>, <<W(2)>>, k = "[", K(3) = "]")
         ELSE IF K(1) = "word" /\ K(2) = ">" THEN Rg(3, <<W(1)>>, <<>>, k = "[", FALSE)
         ELSE Bad
    [] k = "<" ->
         IF K(1) = "=" THEN IF K(2) = "word" THEN Rg(3, <<>>, <<W(2)>>, FALSE, TRUE) ELSE Bad
         ELSE IF K(1) # "word" THEN Bad
         ELSE IF K(2) \in {"]", "}"} THEN Rg(3, <<>>, <<W(1)>>, FALSE, K(2) = "]")
         ELSE Rg(2, <<>>, <<W(1)>>, FALSE, FALSE)
    [] k = ">" ->
         IF K(1) = "=" THEN IF K(2) = "word" THEN Rg(3, <<W(2)>>, <<>>, TRUE, FALSE) ELSE Bad
         ELSE IF K(1) = "word" THEN Rg(2, <<W(1)>>, <<>>, FALSE, FALSE) ELSE Bad
    [] OTHER -> Bad
(* padding: looking past the end finds more ends *)
Pad == [i \in 1 .. 4 |-> Op("end")]
Parse(voc, C, s) ==
  LET t == TLCEval(Lex(s, 1, C.kw, <<>>) \o Pad) IN
  IF t[1].k = "end" THEN Got(1, <<>>, <<>>)
  ELSE LET r == TLCEval(Clauses(voc, C, t, 1, C.def)) IN IF r.ok /\ t[r.i].k = "end" THEN r ELSE Bad
=============================================================================
