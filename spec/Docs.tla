-------------------------------- MODULE Docs --------------------------------
(* What a document means, independent of any index: the tokens, positions and
   offsets of its fields, the values it stores, its term vectors and norms.
   A document is  [s, bn, bd, f]  where s names its schema, bn/bd is its boost
   and f maps field names to [bn, bd, v], v being the sequence of values, each
   [x |-> the bytes (an atom), n |-> their number, t |-> <<term, start, end>>s].
   Terms are numbered in byte order.  A schema maps field names to
   [st, ix, tv, bn, bd]: st 0 not stored, 1 stored, 2 compressed; ix 0 not
   indexed, 1/5 one term per value, 3/7 tokenised, 5/7 without norms; tv a bit
   set 1 vectors, 2 positions, 4 offsets.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Cfg(E, d, f) == LET sc == E.sch[E.docs[d].s] IN IF f \in DOMAIN sc.f THEN sc.f[f] ELSE sc.def
Fields(E, d) == DOMAIN E.docs[d].f
IsIndexed(c) == c.ix # 0
HasNorms(c) == c.ix \in {1, 3}
IsStored(c) == c.st # 0
HasTV(c) == c.tv # 0 /\ c.ix # 0
TVPos(c) == c.tv \in {3, 7}
TVOff(c) == c.tv \in {5, 7}

(* all tokens of a field: <<term, position, start, end>>.  Positions run on
   through the values; offsets count the values joined by one byte. *)
FieldToks(fld) ==
  FoldLeft(LAMBDA acc, v :
      [base |-> acc.base + v.n + 1,
       toks |-> acc.toks \o [k \in 1 .. Len(v.t) |->
                  <<v.t[k][1], Len(acc.toks) + k - 1, acc.base + v.t[k][2], acc.base + v.t[k][3]>>]],
    [base |-> 0, toks |-> <<>>], fld.v).toks
(* a tokenised field is indexed up to the writer's max_field_length tokens *)
Cut(E, q) == IF Len(q) <= E.mfl THEN q ELSE SubSeq(q, 1, E.mfl)
IndexedToks(E, d, f) ==
  LET c == Cfg(E, d, f) q == FieldToks(E.docs[d].f[f]) IN
  IF c.ix = 0 THEN <<>> ELSE IF c.ix \in {3, 7} THEN Cut(E, q) ELSE q

(* positions of term t in a token sequence, in order *)
OccIn(toks, t) == LET s == SelectSeq(toks, LAMBDA k : k[1] = t) IN [i \in 1 .. Len(s) |-> s[i][2]]
TermsIn(toks) == {toks[i][1] : i \in 1 .. Len(toks)}
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
SortedSet(S) == SetToSortSeq(S, <)

(* the values a reader returns for the stored fields *)
StoredVals(E, d) ==
  [f \in {g \in Fields(E, d) : IsStored(Cfg(E, d, g))} |->
     [i \in 1 .. Len(E.docs[d].f[f].v) |-> E.docs[d].f[f].v[i].x]]

(* norms: one byte b = 4 * ex + (m - 4), m in 4..7, stands for m * 2^(ex - 33).  The norm is the
   largest such value not above (p/q) / sqrt(n).  Decided exactly on squares: a/b = p^2 / (n q^2)
   is brought to [1, 4) by powers of 4.  Where the quotient is exactly representable but floating
   point may fall just below, both neighbours are allowed. *)
RECURSIVE Scale(_, _, _)
Scale(a, b, k) == IF a >= 4 * b THEN Scale(a, 4 * b, k + 1) ELSE IF a < b THEN Scale(4 * a, b, k - 1) ELSE <<a, b, k>>
NormBytes(p, q, n) ==
  IF n = 0 THEN 0 .. 255
  ELSE LET s == Scale(p * p, n * q * q, 0)
           m == Max({x \in 4 .. 7 : x * x * s[2] <= 16 * s[1]})
           b == 4 * (s[3] + 31) + m - 4
       IN IF m * m * s[2] = 16 * s[1] /\ n \notin {1, 4, 16, 64} THEN {b, b - 1} ELSE {b}
FieldLen(E, d, f) ==
  LET c == Cfg(E, d, f) IN
  IF c.ix \in {3, 7} THEN LET n == SumSeq([i \in 1 .. Len(E.docs[d].f[f].v) |-> Len(E.docs[d].f[f].v[i].t)]) IN IF n > E.mfl THEN E.mfl ELSE n
  ELSE Len(E.docs[d].f[f].v)
DocNorms(E, d, f) ==   \* the bytes the norm of an untouched document may have
  IF f \notin Fields(E, d) \/ ~HasNorms(Cfg(E, d, f)) THEN {0}
  ELSE LET c == Cfg(E, d, f) x == E.docs[d] IN
       NormBytes(c.bn * x.bn * x.f[f].bn, c.bd * x.bd * x.f[f].bd, FieldLen(E, d, f))
=============================================================================
