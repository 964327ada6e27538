----------------------------- MODULE AnalysisMC -----------------------------
(* Every short text over an alphabet that reaches all rules of the grammar, with
   what must hold of its tokens; the texts are replayed on the real tokenisers. *)
EXTENDS Analysis, Json
CONSTANTS Depth, Alphabet, Gen, U
VARIABLE text
Init == text = <<>>
Next == Len(text) < Depth /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text
Bytes == FlattenSeq([i \in DOMAIN text |-> Enc(text[i])])
T == Standard(Bytes, U)
Q == Chars(Bytes, U)
Faithful == LET b == Bytes  t == TLCEval(T) IN Bounded(b, t) /\ Disjoint(t) /\ Quotes(b, t) /\ \A i \in DOMAIN t : t[i].t # <<>>
(* no letter or digit is lost *)
Covered == LET t == TLCEval(T)  q == TLCEval(Q) IN \A i \in DOMAIN q : UN(U, q[i].c) => \E k \in DOMAIN t : t[k].s <= q[i].s /\ q[i].s < t[k].e
HyphenKeeps == LET t == TLCEval(T)  h == TLCEval(Hyphen(t)) IN Bounded(Bytes, h) /\ Forward(h) /\ \A k \in DOMAIN t : \E j \in DOMAIN h : t[k].s = h[j].s /\ t[k].e = h[j].e /\ h[j].inc = t[k].inc
StopKeeps == LET t == TLCEval(T)  z == {t[1].t} IN t # <<>> => LET r == Stop(t, z, 1, 0, <<>>) IN \A i \in DOMAIN r : \E j \in DOMAIN t : t[j].s = r[i].s /\ j = FoldSeq(LAMBDA k, n : n + k.inc, 0, SubSeq(r, 1, i))
Emit == (Gen /\ Len(text) = Depth) => PrintT(<<"GEN", ToJson(text)>>)
=============================================================================
