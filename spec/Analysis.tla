------------------------------ MODULE Analysis ------------------------------
(* What every analyser makes of a text.  A text is a sequence of bytes b; a token
   is [t |-> its bytes, s |-> first byte, e |-> one past the last, inc |-> position
   increment].  Tokenisers split the text, filters rewrite the token sequence. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

MaxWord == 254            \* longer tokens are cut
(* ---- characters.  A character is [c code, s offset, w width]. ---- *)
Cont(x) == x - (x \div 64) * 64
Width(x) == IF x < 128 THEN 1 ELSE IF x < 224 THEN 2 ELSE IF x < 240 THEN 3 ELSE 4
Code(b, i) ==
  LET w == Width(b[i]) IN
  CASE w = 1 -> b[i]
    [] w = 2 -> (b[i] - 192) * 64 + Cont(b[i + 1])
    [] w = 3 -> (b[i] - 224) * 4096 + Cont(b[i + 1]) * 64 + Cont(b[i + 2])
    [] OTHER -> (b[i] - 240) * 262144 + Cont(b[i + 1]) * 4096 + Cont(b[i + 2]) * 64 + Cont(b[i + 3])
Heads(b) == SetToSortSeq({i \in DOMAIN b : b[i] < 128 \/ b[i] > 191}, <)
Dec(b) == LET h == TLCEval(Heads(b)) IN [k \in DOMAIN h |-> [c |-> Code(b, h[k]), s |-> h[k] - 1, w |-> Width(b[h[k]])]]
Chars(b, mb) == IF mb THEN Dec(b) ELSE [i \in 1 .. Len(b) |-> [c |-> b[i], s |-> i - 1, w |-> 1]]
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + Cont(c)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + Cont(c \div 64), 128 + Cont(c)>>
          ELSE <<240 + c \div 262144, 128 + Cont(c \div 4096), 128 + Cont(c \div 64), 128 + Cont(c)>>
(* the characters beyond ASCII the generators use *)
Letters == {233, 201, 223, 1046, 1078, 20013, 25991, 119964, 570, 11365, 8490, 931, 963}
Spaces == {12288, 8195}
Alpha(c) == c \in 65 .. 90 \/ c \in 97 .. 122 \/ c \in Letters
Digit(c) == c \in 48 .. 57
Alnum(c) == Alpha(c) \/ Digit(c)
Space(c) == c \in 9 .. 13 \/ c = 32 \/ c \in Spaces
Lower(c) == IF c \in 65 .. 90 THEN c + 32
            ELSE CASE c = 201 -> 233 [] c = 1046 -> 1078 [] c = 570 -> 11365 [] c = 8490 -> 107 [] c = 931 -> 963 [] OTHER -> c
LowerBytes(t) == [i \in DOMAIN t |-> IF t[i] \in 65 .. 90 THEN t[i] + 32 ELSE t[i]]
LowerText(t) == LET q == TLCEval(Dec(t)) IN FlattenSeq([i \in DOMAIN q |-> Enc(Lower(q[i].c))])

Tok(t, s, e, n) == [t |-> t, s |-> s, e |-> e, inc |-> n]
Sub(b, s, e) == SubSeq(b, s + 1, e)
(* ---- runs of characters of one class ---- *)
Runs(b, q, In(_)) ==
  LET st == {i \in DOMAIN q : In(q[i].c) /\ (i = 1 \/ ~In(q[i - 1].c))}
      ss == SetToSortSeq(st, <)
      End(i) == LET z == {j \in i .. Len(q) : ~In(q[j].c)} IN IF z = {} THEN Len(b) ELSE q[Min(z)].s
  IN [k \in DOMAIN ss |-> Tok(Sub(b, q[ss[k]].s, End(ss[k])), q[ss[k]].s, End(ss[k]), 1)]
White(b, mb) == Runs(b, Chars(b, mb), LAMBDA c : ~Space(c))
LetterRuns(b, mb) == Runs(b, Chars(b, mb), LAMBDA c : Alpha(c))

(* ---- the standard grammar: longest match, first rule wins ties.  Rules work on
   sets of positions: from the positions S, those reached after the pattern. ---- *)
Ch(c, S, P(_)) == {i + 1 : i \in {j \in S : j <= Len(c) /\ P(c[j])}}
EndOf(c, i, P(_)) == LET z == {j \in i .. Len(c) : ~P(c[j])} IN IF z = {} THEN Len(c) + 1 ELSE Min(z)
(* a position already passed by an earlier one of the same run adds nothing *)
Plus(c, S, P(_)) == UNION {(i + 1) .. EndOf(c, i, P) : i \in {j \in S : j <= Len(c) /\ P(c[j]) /\ ~((j - 1) \in S /\ P(c[j - 1]))}}
Star(c, S, P(_)) == S \cup Plus(c, S, P)
Lit(c, S, x) == Ch(c, S, LAMBDA y : y = x)
Word(c, S, w) == {i + Len(w) : i \in {j \in S : j + Len(w) - 1 <= Len(c) /\ \A k \in DOMAIN w : c[j + k - 1] = w[k]}}
AA(c) == c \in 65 .. 90 \/ c \in 97 .. 122
AN(c) == AA(c) \/ Digit(c)
UA(u, c) == IF u THEN Alpha(c) ELSE AA(c)
UN(u, c) == UA(u, c) \/ Digit(c)
Atext(c) == AN(c) \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
Ctl(c) == c \in 1 .. 8 \/ c \in {11, 12, 127} \/ c \in 14 .. 31
Qtext(c) == Ctl(c) \/ c = 33 \/ c \in 35 .. 91 \/ c \in 93 .. 126
Dtext(c) == Ctl(c) \/ c \in 33 .. 90 \/ c \in 94 .. 126
Ttext(c) == c \in 1 .. 9 \/ c \in {11, 12} \/ c \in 14 .. 127
Uword(x) == AN(x) \/ x = 95
Dword(x) == Uword(x) \/ x = 45
Dalnum(x) == AN(x) \/ x = 45
(* the repeated parts of the rules, and everything reached from S by any number of
   them (F: the positions reached last) *)
Step(c, S, u, k) ==
  CASE k = "dot" -> Plus(c, Lit(c, S, 46), Atext)
    [] k = "quoted" -> Ch(c, S, Qtext) \cup Ch(c, Lit(c, S, 92), Ttext)
    [] k = "domain" -> Ch(c, S, Dtext) \cup Ch(c, Lit(c, S, 92), Ttext)
    [] k = "hyphen" -> Plus(c, Ch(c, S, LAMBDA y : y \in {45, 95}), LAMBDA y : UN(u, y))
    [] k = "host" -> Star(c, Ch(c, Lit(c, S, 46), Uword), Dword)
    [] k = "sub" -> LET a == Ch(c, S, AN) IN Lit(c, a \cup Ch(c, Star(c, a, Dalnum), AN), 46)
    [] k = "letter" -> Lit(c, Ch(c, S, LAMBDA y : UA(u, y)), 46)
RECURSIVE Reach(_, _, _, _, _)
Reach(c, S, F, u, k) == LET T == TLCEval(Step(c, F, u, k) \ S) IN IF T = {} THEN S ELSE Reach(c, TLCEval(S \cup T), T, u, k)
Rep(c, S, u, k) == Reach(c, S, S, u, k)
DotAtom(c, S) == Rep(c, TLCEval(Plus(c, S, Atext)), FALSE, "dot")
Email(c, i) ==
  LET l == DotAtom(c, {i}) \cup Lit(c, Rep(c, Lit(c, {i}, 34), FALSE, "quoted"), 34)
      a == Lit(c, l, 64)
  IN IF a = {} THEN {} ELSE DotAtom(c, a) \cup Lit(c, Rep(c, Lit(c, a, 91), FALSE, "domain"), 93)
Token(c, S, u) == Star(c, Ch(c, S, LAMBDA y : UA(u, y)), LAMBDA y : UN(u, y))
Urlc(x) == AN(x) \/ x \in {46, 44, 47, 95, 45, 64, 58}
Proto(c, i) == LET h == Word(c, {i}, <<104, 116, 116, 112>>) IN h \cup Lit(c, h, 115) \cup Word(c, {i}, <<102, 116, 112>>) \cup Word(c, {i}, <<102, 105, 108, 101>>)
Slashes(c, S) == Plus(c, Lit(c, S, 58), LAMBDA y : y = 47)
Tlds == {<<99, 111, 109>>, <<101, 100, 117>>, <<98, 105, 122>>, <<103, 111, 118>>, <<105, 110, 116>>, <<105, 110, 102, 111>>, <<109, 105, 108>>, <<110, 101, 116>>, <<111, 114, 103>>}
UrlBody(c, i) ==
  LET d == Plus(c, Slashes(c, Proto(c, i)), Dword)
      one == Rep(c, Star(c, Ch(c, Lit(c, d, 46), Uword), Dword), FALSE, "host")
      two == Plus(c, Slashes(c, Plus(c, {i}, AN)), Urlc)
      sub == Rep(c, {i}, FALSE, "sub") \ {i}
      three == UNION {Word(c, sub, w) : w \in Tlds} \cup Ch(c, Ch(c, sub, AA), AA)
      u == (IF d = {} THEN {} ELSE one) \cup two \cup three
  IN u \cup Plus(c, Lit(c, u, 58), Digit)
Url(c, i) == LET p == UrlBody(c, i) IN p \cup Lit(c, p, 47)
Top(S) == IF S = {} THEN 0 ELSE Max(S)
(* the rules in order: how far each reaches from i *)
Rules(c, i, u) ==
  LET tk == Token(c, {i}, u)  ap == Lit(c, tk, 39)
      num == Plus(c, {i} \cup Ch(c, {i}, LAMBDA y : y \in {43, 45}), Digit)
      al == Plus(c, {i}, LAMBDA y : UA(u, y))
      am == Ch(c, tk, LAMBDA y : y \in {38, 64})
  IN <<Top(Email(c, i)), Top(tk), Top(ap), Top(Ch(c, ap, LAMBDA y : y \in {115, 83})),
       Top(Plus(c, Lit(c, al, 39), LAMBDA y : UA(u, y))),
       Top(Rep(c, Plus(c, {i}, LAMBDA y : UN(u, y)), u, "hyphen")),
       Top(am \cup Token(c, am, u)),
       Top(Url(c, i)),
       Top(Ch(c, Rep(c, {i}, u, "letter") \ {i}, LAMBDA y : UA(u, y))),
       Top(num), Top(Plus(c, Lit(c, num, 46), Digit))>>
Skip(c, i) == LET z == {j \in Slashes(c, Proto(c, i)) : j <= Len(c) /\ Dword(c[j])} IN IF z = {} THEN 0 ELSE Max(z) - i
(* no rule starts with these, and no token here is longer than the window *)
Window == 1300
NextStart(c, i) == IF i > Len(c) \/ c[i] \notin {32, 46} THEN i ELSE LET z == {j \in i .. Len(c) : c[j] \notin {32, 46}} IN IF z = {} THEN Len(c) + 1 ELSE Min(z)
RECURSIVE StdScan(_, _, _, _, _, _)
StdScan(b, q, c, i, u, acc) ==
  IF i > Len(c) THEN acc
  ELSE LET w == TLCEval(SubSeq(c, i, Min({i + Window, Len(c)})))
           r == TLCEval(Rules(w, 1, u))
           m0 == Max({r[k] : k \in DOMAIN r})
           m == IF m0 = 0 THEN 0 ELSE i + m0 - 1
           k == Min({x \in DOMAIN r : r[x] = m0})
           At(j) == IF j > Len(q) THEN Len(b) ELSE q[j].s
           s0 == IF k = 8 THEN i + Skip(w, 1) ELSE i
           e0 == CASE k = 3 -> m - 1 [] k = 4 -> m - 2 [] k = 8 /\ c[m - 1] = 47 /\ (m0 - 1) \in UrlBody(w, 1) -> m - 1 [] OTHER -> m
           raw == Sub(b, At(s0), At(e0))
           t == IF k = 9 THEN SelectSeq(raw, LAMBDA x : x # 46) ELSE raw
       IN IF m = 0 THEN StdScan(b, q, c, NextStart(c, i + 1), u, acc)
          ELSE StdScan(b, q, c, NextStart(c, m), u, Append(acc, Tok(t, At(i), At(m), 1)))
Standard(b, u) == LET q == TLCEval(Chars(b, u)) IN StdScan(b, q, TLCEval([i \in DOMAIN q |-> q[i].c]), 1, u, <<>>)

(* ---- filters ---- *)
MapText(T, f(_)) == [i \in DOMAIN T |-> [T[i] EXCEPT !.t = f(T[i].t)]]
(* removed words leave their increments to the next token *)
RECURSIVE Stop(_, _, _, _, _)
Stop(T, W, i, gap, acc) ==
  IF i > Len(T) THEN acc
  ELSE IF T[i].t \in W THEN Stop(T, W, i + 1, gap + T[i].inc, acc)
  ELSE Stop(T, W, i + 1, 0, Append(acc, [T[i] EXCEPT !.inc = @ + gap]))
(* a hyphenated word of letters: the joined word, then its parts *)
Hyphenated(t) == Len(t) > 1 /\ (\E i \in 2 .. Len(t) : t[i] = 45) /\ \A i \in 2 .. Len(t) : t[i] = 45 \/ AA(t[i])
Parts(k) ==
  LET t == k.t
      st == SetToSortSeq({i \in 1 .. Len(t) : t[i] # 45 /\ (i = 1 \/ t[i - 1] = 45)}, <)
      End(i) == LET z == {j \in i .. Len(t) : t[j] = 45} IN IF z = {} THEN Len(t) + 1 ELSE Min(z)
      exact == k.e - k.s = Len(t)
  IN [x \in DOMAIN st |-> LET w == SubSeq(t, st[x], End(st[x]) - 1) IN
        IF exact THEN Tok(w, k.s + st[x] - 1, k.s + End(st[x]) - 1, IF x = 1 THEN 0 ELSE 1) ELSE Tok(w, k.s, k.e, IF x = 1 THEN 0 ELSE 1)]
Hyphen(T) == FlattenSeq([i \in DOMAIN T |-> IF Hyphenated(T[i].t) THEN <<[T[i] EXCEPT !.t = SelectSeq(@, LAMBDA x : x # 45)]>> \o Parts(T[i]) ELSE <<T[i]>>])
(* mapping: reading left to right, as soon as a pattern is complete the longest one
   ending there is replaced; a pattern given twice has its last replacement *)
Ends(t, from, i, p) == i - from + 1 >= Len(p) /\ SubSeq(t, i - Len(p) + 1, i) = p
RECURSIVE Mapped(_, _, _, _, _)
Mapped(ms, t, from, i, acc) ==
  IF i > Len(t) THEN acc \o SubSeq(t, from, Len(t))
  ELSE LET hit == {k \in DOMAIN ms : Ends(t, from, i, ms[k][1])} IN
       IF hit = {} THEN Mapped(ms, t, from, i + 1, acc)
       ELSE LET l == Max({Len(ms[k][1]) : k \in hit})
                k == Max({x \in hit : Len(ms[x][1]) = l})
            IN Mapped(ms, t, i + 1, i + 1, acc \o SubSeq(t, from, i - l) \o ms[k][2])
Map(ms, t) == Mapped(ms, t, 1, 1, <<>>)

Base(b, k) ==
  CASE k = "non" -> <<Tok(b, 0, Len(b), 1)>>
    [] k = "ws" -> White(b, FALSE)  [] k = "mbws" -> White(b, TRUE)  [] k = "mbwslc" -> MapText(White(b, TRUE), LowerText)
    [] k = "lt" -> Runs(b, Chars(b, FALSE), AA)  [] k = "mblt" -> LetterRuns(b, TRUE)  [] k = "mbltlc" -> MapText(LetterRuns(b, TRUE), LowerText)
    [] k = "std" -> Standard(b, FALSE)  [] k \in {"mbstd", "ustd"} -> Standard(b, TRUE)
(* stem is the stemmer's own answer for each word *)
RECURSIVE Apply(_, _, _, _)
Apply(T, ch, i, stem) ==
  IF i > Len(ch) THEN T
  ELSE LET f == ch[i]
           U == CASE f.k = "lc" -> MapText(T, LowerBytes)
                  [] f.k = "mblc" -> MapText(T, LowerText)
                  [] f.k = "stop" -> Stop(T, ToSet(f.w), 1, 0, <<>>)
                  [] f.k = "hyphen" -> Hyphen(T)
                  [] f.k = "map" -> MapText(T, LAMBDA t : Map(f.m, t))
                  [] f.k = "stem" -> MapText(T, LAMBDA t : IF t \in DOMAIN stem THEN stem[t] ELSE <<0>>)
       IN Apply(TLCEval(U), ch, i + 1, stem)
Tokens(b, ch, stem) == Apply(TLCEval(Base(b, ch[1].k)), ch, 2, stem)

(* ---- what holds of every token sequence ---- *)
RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(t, i, b, j) == IF i > Len(t) THEN TRUE ELSE IF j > Len(b) THEN FALSE ELSE IF t[i] = b[j] THEN SubseqFrom(t, i + 1, b, j + 1) ELSE SubseqFrom(t, i, b, j + 1)
Bounded(b, T) == \A i \in DOMAIN T : 0 <= T[i].s /\ T[i].s <= T[i].e /\ T[i].e <= Len(b)
Forward(T) == \A i \in 1 .. Len(T) - 1 : T[i].s <= T[i + 1].s
Disjoint(T) == \A i \in 1 .. Len(T) - 1 : T[i].e <= T[i + 1].s
Quotes(b, T) == \A i \in DOMAIN T : SubseqFrom(T[i].t, 1, Sub(b, T[i].s, T[i].e), 1)
Same(x, y) == /\ x[2] = y.s /\ x[3] = y.e /\ x[4] = y.inc /\ x[5] = Len(x[1])
              /\ IF Len(y.t) <= MaxWord /\ y.e - y.s <= MaxWord THEN x[1] = y.t ELSE Len(x[1]) \in 80 .. MaxWord /\ IsPrefix(x[1], y.t)
=============================================================================
