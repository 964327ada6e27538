------------------------------- MODULE Store -------------------------------
(* Stores and streams (C21).  A store maps names to files, a file is a sequence
   of bytes 0..255 that lives on while a stream is open on it, a stream is a
   file and a position.  A compound store is a read-only view of the files
   packed into one file of another store.  Numbers wider than TLC's integers
   are sequences: fixed-width ones of their bytes, high byte first, and
   variable-length ones of their 7-bit groups, low group first, without
   leading zero groups. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
(* writing d at position p (0-based, within the file) *)
Splice(f, p, d) == SubSeq(f, 1, p) \o d \o SubSeq(f, p + Len(d) + 1, Len(f))
VEnc(g) == IF g = <<>> THEN <<0>> ELSE [i \in 1 .. Len(g) |-> IF i < Len(g) THEN g[i] + 128 ELSE g[i]]
Groups(n) == IF n = 0 THEN <<>> ELSE IF n < 128 THEN <<n>> ELSE IF n < 16384 THEN <<n % 128, n \div 128>> ELSE <<n % 128, (n \div 128) % 128, n \div 16384>>
(* the end (exclusive, 0-based) of the variable-length number at p, or -1 when the file ends within it *)
RECURSIVE VEnd(_, _)
VEnd(f, p) == IF p >= Len(f) THEN -1 ELSE IF f[p + 1] < 128 THEN p + 1 ELSE VEnd(f, p + 1)
RECURSIVE Trim(_)
Trim(g) == IF g # <<>> /\ Last(g) = 0 THEN Trim(Front(g)) ELSE g
VDec(f, p) == Trim([i \in 1 .. VEnd(f, p) - p |-> f[p + i] % 128])
RECURSIVE VSkip(_, _, _)
VSkip(f, p, n) == IF n = 0 \/ p < 0 THEN p ELSE VSkip(f, VEnd(f, p), n - 1)
RECURSIVE Num(_, _)
Num(g, i) == IF i > Len(g) THEN 0 ELSE g[i] + 128 * Num(g, i + 1)
(* what a read of the given kind finds at p: [ok, v, to] *)
None == [ok |-> FALSE, v |-> <<>>, to |-> 0]
Fixed(f, p, n) == IF p + n > Len(f) THEN None ELSE [ok |-> TRUE, v |-> SubSeq(f, p + 1, p + n), to |-> p + n]
ReadAt(f, p, kind, n) ==
  CASE kind \in {"b", "bs"} -> Fixed(f, p, n)
    [] kind \in {"i32", "u32"} -> Fixed(f, p, 4)
    [] kind \in {"i64", "u64"} -> Fixed(f, p, 8)
    [] kind \in {"vint", "voff", "vll"} -> IF VEnd(f, p) < 0 THEN None ELSE [ok |-> TRUE, v |-> VDec(f, p), to |-> VEnd(f, p)]
    [] OTHER -> IF VEnd(f, p) < 0 THEN None ELSE Fixed(f, VEnd(f, p), Num(VDec(f, p), 1))
Encode(kind, v) == CASE kind \in {"vint", "voff", "vll"} -> VEnc(v)
                     [] kind = "str" -> VEnc(Groups(Len(v))) \o v
                     [] OTHER -> v
MaxGroups(kind) == IF kind = "vint" THEN 4 ELSE 9     \* longer ones may not fit the type
=============================================================================
