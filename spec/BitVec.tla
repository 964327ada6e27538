------------------------------- MODULE BitVec -------------------------------
(* C22.  A bit vector is a set of naturals that is finite or co-finite.  It is
   represented by ext (are the bits beyond every touched one set?) and x, the
   finite set of bits that differ from ext; size is 1 + the highest bit ever
   touched (scanning is only promised below it). *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Empty == [ext |-> FALSE, x |-> {}, size |-> 0]
Member(v, i) == (i \in v.x) # v.ext
Max2(a, b) == IF a > b THEN a ELSE b
SetBit(v, i, b) ==
  [v EXCEPT !.x = IF b # v.ext THEN @ \cup {i} ELSE @ \ {i}, !.size = Max2(@, i + 1)]
NotV(v) == [v EXCEPT !.ext = ~@]
(* a bitwise operation: the bits that can differ from the common extension are in a.x \cup b.x *)
Bin(op(_, _), a, b) ==
  LET e == op(a.ext, b.ext) IN
  [ext |-> e, size |-> Max2(a.size, b.size),
   x |-> {i \in a.x \cup b.x : op(Member(a, i), Member(b, i)) # e}]
And(p, q) == p /\ q
Or(p, q) == p \/ q
Xor(p, q) == p # q
BinOp(o, a, b) == CASE o = "and" -> Bin(And, a, b) [] o = "or" -> Bin(Or, a, b) [] o = "xor" -> Bin(Xor, a, b)

Count(v) == Cardinality(v.x)      \* the number of bits that differ from the extension
SameSet(a, b) == a.ext = b.ext /\ a.x = b.x

Members(v, pol) == {i \in 0 .. v.size - 1 : Member(v, i) = pol}
(* the answer of a scan for the next bit of polarity pol at or after from *)
ScanOk(v, pol, from, r) ==
  LET c == {i \in Members(v, pol) : i >= from} IN
  IF c # {} THEN r = Min(c)
  ELSE r = -1 \/ (r >= from /\ Member(v, r) = pol /\ \A j \in Max2(from, 0) .. r - 1 : Member(v, j) # pol)
(* a whole scan: all of them below size, in order; beyond size only true members *)
ScanAllOk(v, pol, seq) ==
  LET n == Cardinality(Members(v, pol)) IN
  /\ Len(seq) >= n
  /\ \A k \in 1 .. Len(seq) : Member(v, seq[k]) = pol /\ (k > 1 => seq[k - 1] < seq[k])
  /\ {seq[k] : k \in 1 .. n} = Members(v, pol)
  /\ Len(seq) > n => \A j \in v.size .. seq[Len(seq)] : Member(v, j) = pol => j \in {seq[k] : k \in n + 1 .. Len(seq)}
=============================================================================
