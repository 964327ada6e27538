----------------------------- MODULE BitVecMC -----------------------------
(* Exhaustive exploration of the bit-vector specification over two registers
   and boundary bits, (a) checking the algebra the property states, (b) printing
   every history of length Depth, which is then replayed on the real code. *)
EXTENDS BitVec, TLC, Json
CONSTANTS Bits, Depth, Gen
VARIABLES r, hist
Ops == {<<"set", k, i>> : k \in 1 .. 2, i \in Bits} \cup {<<"unset", k, i>> : k \in 1 .. 2, i \in Bits}
  \cup {<<"notx", k, 0>> : k \in 1 .. 2}
  \cup {<<o, 1, 0>> : o \in {"andx", "orx", "xorx"}} \cup {<<o, 2, 0>> : o \in {"and", "or", "xor", "not"}}
Do(o, s) ==
  CASE o[1] = "set" -> [s EXCEPT ![o[2]] = SetBit(@, o[3], TRUE)]
    [] o[1] = "unset" -> [s EXCEPT ![o[2]] = SetBit(@, o[3], FALSE)]
    [] o[1] = "notx" -> [s EXCEPT ![o[2]] = NotV(@)]
    [] o[1] = "andx" -> [s EXCEPT ![1] = BinOp("and", s[1], s[2])]
    [] o[1] = "orx" -> [s EXCEPT ![1] = BinOp("or", s[1], s[2])]
    [] o[1] = "xorx" -> [s EXCEPT ![1] = BinOp("xor", s[1], s[2])]
    [] o[1] \in {"and", "or", "xor"} -> [s EXCEPT ![2] = BinOp(o[1], s[1], s[2])]
    [] o[1] = "not" -> [s EXCEPT ![2] = NotV(s[1])]
Init == r = <<Empty, Empty>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : r' = Do(o, r) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<r, hist>>
Probe == Bits \cup {i + 1 : i \in Bits} \cup {1000}
(* the operations really are the set operations *)
Algebra ==
  /\ \A i \in Probe : /\ Member(BinOp("and", r[1], r[2]), i) = (Member(r[1], i) /\ Member(r[2], i))
                      /\ Member(BinOp("or", r[1], r[2]), i) = (Member(r[1], i) \/ Member(r[2], i))
                      /\ Member(BinOp("xor", r[1], r[2]), i) = (Member(r[1], i) # Member(r[2], i))
                      /\ Member(NotV(r[1]), i) = ~Member(r[1], i)
  /\ SameSet(NotV(BinOp("and", NotV(r[1]), NotV(r[2]))), BinOp("or", r[1], r[2]))
  /\ SameSet(BinOp("xor", r[1], r[2]), BinOp("or", BinOp("and", r[1], NotV(r[2])), BinOp("and", NotV(r[1]), r[2])))
  /\ SameSet(r[1], r[2]) <=> (\A i \in Probe : Member(r[1], i) = Member(r[2], i))
  /\ \A k \in 1 .. 2 : Count(r[k]) = Cardinality({i \in 0 .. r[k].size : Member(r[k], i) # r[k].ext})
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
