---------------------------- MODULE HighlightMC ----------------------------
(* Every short text and a list of queries: the judgements of Highlight accept the text painted
   with its marks and no painting with a mark missing or added, and excerpts cut out of it that
   do not overlap; the texts are replayed on the real highlighter. *)
EXTENDS Highlight, Json
CONSTANTS Depth
VARIABLE s
Init == s = <<>>
Next == Len(s) < Depth /\ \E k \in 1 .. 3 : s' = Append(s, k)
Spec == Init /\ [][Next]_s
voc == << <<97>>, <<98>>, <<99, 99>> >>
E == [voc |-> voc]
Text == FoldLeft(LAMBDA a, k : IF a = <<>> THEN voc[k] ELSE a \o <<32>> \o voc[k], <<>>, s)
Tk == FoldLeft(LAMBDA a, k : LET at == IF a = <<>> THEN 0 ELSE a[Len(a)][4] + 1 IN Append(a, <<k, Len(a), at, at + Len(voc[k])>>), <<>>, s)
T(t) == [q |-> "T", f |-> "f", t |-> t]
P(slop, ps) == [q |-> "P", f |-> "f", slop |-> slop, ps |-> ps]
B(c) == [q |-> "B", c |-> c]
Qs == << T(1), T(3), P(0, << <<0, <<1>>>>, <<1, <<2>>>> >>), P(0, << <<0, <<1>>>>, <<1, <<1>>>> >>), P(1, << <<0, <<1>>>>, <<1, <<2>>>> >>), P(0, << <<0, <<1, 2>>>>, <<2, <<3>>>> >>),
         B(<< <<0, T(1)>>, <<1, T(2)>>, <<2, T(3)>> >>), B(<< <<0, T(2)>>, <<0, P(0, << <<0, <<1>>>>, <<1, <<2>>>> >>)>> >>), [q |-> "SM", f |-> "f", ts |-> <<1, 3>>],
         [q |-> "SN", slop |-> 0, io |-> 1, as |-> << [q |-> "ST", f |-> "f", t |-> 1], [q |-> "ST", f |-> "f", t |-> 2] >>], T(2) >>
M(q) == Marks(E, q, "f", [f \in {"f"} |-> Tk])
Pre == <<60>>  Post == <<62>>  Ell == <<46, 46>>
(* the part of the text from i up to j with the ranges R painted *)
Paint(i, j, R) == FoldLeft(LAMBDA a, k : LET o == i + k - 1 IN
    a \o (IF \E x \in R : x[1] = o THEN Pre ELSE <<>>) \o <<Text[o + 1]>> \o (IF \E x \in R : x[2] = o + 1 THEN Post ELSE <<>>), <<>>, [k \in 1 .. j - i |-> k])
Cut1(i, j, R) == (IF i > 0 THEN Ell ELSE <<>>) \o Paint(i, j, R) \o (IF j < Len(Text) THEN Ell ELSE <<>>)
t == [pre |-> Pre, post |-> Post, ell |-> Ell]
Edges == {x[3] : x \in ToSet(Tk)} \cup {x[4] : x \in ToSet(Tk)}
Laws == s # <<>> => \A n \in DOMAIN Qs : LET m == TLCEval(M(Qs[n])) tk == TLCEval(Tk) text == TLCEval(Text) N == Len(text) IN m.exact =>
  LET R == TLCEval(Ranges(m, tk)) IN
  /\ WholeOk(m, tk, text, Paint(0, N, R), Pre, Post)
  /\ \A x \in R : ~WholeOk(m, tk, text, Paint(0, N, R \ {x}), Pre, Post)
  /\ \A w \in ToSet(tk) : (\A x \in R : w[4] <= x[1] \/ x[2] <= w[3]) => ~WholeOk(m, tk, text, Paint(0, N, R \cup {<<w[3], w[4]>>}), Pre, Post)
  /\ \A x, y \in R : x # y => x[2] < y[1] \/ y[2] < x[1]                      \* the marks are apart
  /\ \A i, j \in Edges : i < j => LET in == {x \in R : i <= x[1] /\ x[2] <= j} one == Cut1(i, j, in) IN
       /\ in # {} => ExcerptsOk(m, tk, text, <<one>>, 1, t)
       /\ (in = {} /\ R # {}) => ~ExcerptsOk(m, tk, text, <<one>>, 1, t)       \* an excerpt without a mark
       /\ ~ExcerptsOk(m, tk, text, <<one, one>>, 1, t)
       /\ (2 * (j - i) > N) => ~ExcerptsOk(m, tk, text, <<one, one>>, 2, t)     \* these must overlap
       /\ \A k \in Edges : (j <= k /\ k < N /\ in # {}) => LET out == {x \in R : k <= x[1]} two == Cut1(k, N, out) IN ExcerptsOk(m, tk, text, <<one, two>>, 2, t)
  /\ (n = 1 => Cardinality(R) = Cardinality({i \in DOMAIN s : s[i] = 1}))
Emit == Len(s) = Depth => PrintT(<<"GEN", ToJson(s)>>)
=============================================================================
