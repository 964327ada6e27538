------------------------------ MODULE ParserMC ------------------------------
(* Every short sequence of the tokens of the query language, and the laws a reader of
   the language expects; the strings are replayed on the real parser. *)
EXTENDS Parser, Json
CONSTANTS Depth, GenDepth, Pieces, Or
VARIABLE s
vars == <<s>>
RECURSIVE Str(_)
Str(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o Str(Tail(x))
(* pieces: letters are written in bytes by the configuration *)
P == << <<97>>, <<98>>, <<99, 97, 116>>, <<32>>, <<65, 78, 68>>, <<79, 82>>, <<43>>, <<45>>, <<40>>, <<41>>, <<34>>, <<124>>, <<102, 58>>, <<42>>, <<63>>,
        <<126>>, <<94, 50>>, <<91>>, <<93>>, <<60>>, <<62>>, <<61>>, <<42, 58>>, <<92>>, <<38, 38>>, <<122, 122, 58>>, <<45, 120>>, <<58>>, <<78, 79, 84>> >>
Init == s = <<>>
Next == Len(s) < Depth /\ \E k \in Pieces : s' = Append(s, k)
Spec == Init /\ [][Next]_vars
Text == Str([i \in DOMAIN s |-> P[s[i]]])
C == [or |-> Or, wl |-> 1, any |-> 0, kw |-> 1, tokall |-> 0, typed |-> 0, slop |-> 0, all |-> << <<102>>, <<103>> >>, def |-> << <<102>>, <<103>> >>, tok |-> << <<102>> >>,
      an |-> <<>>, dan |-> << [k |-> "ws"] >>]
voc == << <<97>>, <<98>>, <<99, 97, 116>>, <<99, 97, 98>> >>
D == << [f \in { <<102>> } |-> << <<1, 0>>, <<2, 1>> >>], [f \in { <<103>> } |-> << <<1, 0>> >>], [f \in { <<102>>, <<103>> } |-> << <<3, 0>>, <<2, 1>>, <<1, 2>> >>], [f \in { <<102>> } |-> << <<4, 0>> >>] >>
tks == [i \in 0 .. 3 |-> D[i + 1]]
L == 0 .. 3
Hit(p) == IF ~p.ok THEN [lo |-> {99}, hi |-> {}] ELSE IF p.q = <<>> THEN [lo |-> {}, hi |-> {}] ELSE LET m == Sem([voc |-> voc], p.q[1], L, tks) IN [lo |-> m.lo, hi |-> m.hi]
PP(t) == Parse(voc, C, t)
Say(a, t, b) == a \o t \o b
Laws ==
  LET t == TLCEval(Text)  p == TLCEval(PP(t)) IN
  (s # <<>> /\ s[Len(s)] # 24 /\ p.ok /\ ~p.open /\ p.q # <<>>) =>
    LET h == TLCEval(Hit(p))
        a == TLCEval(Hit(PP(<<97>>)))
        Same(x, f(_)) == LET r == TLCEval(PP(x)) IN r.ok /\ Hit(r).lo = f(h.lo) /\ Hit(r).hi = f(h.hi)
    IN h.lo = h.hi =>
       /\ Same(Say(<<40>>, t, <<41>>), LAMBDA z : z)                                    \* (s) is s
       /\ Same(Say(<<43, 40>>, t, <<41>>), LAMBDA z : z)                                \* +(s) alone is s
       /\ Same(Say(<<45, 40>>, t, <<41>>), LAMBDA z : L \ z)                            \* -(s) alone is all the rest
       /\ Same(Say(<<97, 32, 79, 82, 32, 40>>, t, <<41>>), LAMBDA z : a.lo \cup z)       \* a OR (s)
       /\ Same(Say(<<97, 32, 65, 78, 68, 32, 40>>, t, <<41>>), LAMBDA z : a.lo \cap z)   \* a AND (s)
       /\ Same(Say(<<97, 32, 65, 78, 68, 32, 45, 40>>, t, <<41>>), LAMBDA z : a.lo \ z)  \* a AND -(s)
       /\ Same(Say(<<40>>, t, <<41, 94, 50>>), LAMBDA z : z)                            \* boosts choose nothing
       /\ Same(Say(<<32>>, t, <<32>>), LAMBDA z : z)
       /\ LET r == TLCEval(PP(Say(<<103, 58, 40>>, t, <<41>>)))  r2 == TLCEval(Parse(voc, [C EXCEPT !.def = << <<103>> >>], t)) IN Hit(r) = Hit(r2)   \* g:(s)
       /\ LET r == TLCEval(PP(Say(<<122, 122, 58, 40>>, t, <<41>>))) IN r.ok              \* unknown fields are no error
Emit == Len(s) \in 1 .. GenDepth => PrintT(<<"GEN", ToJson(Text)>>)
=============================================================================
