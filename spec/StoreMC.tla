------------------------------ MODULE StoreMC ------------------------------
(* Every short history of writes and seeks around the buffer size of the
   streams (1024), and that what was written reads back: the laws of Store.tla
   are checked on the way, and the histories are replayed on the real streams. *)
EXTENDS Store, Json
CONSTANTS Depth, Sizes, Gen
Pat(n) == [i \in 1 .. n |-> (7 * i + n) % 256]
Vals == {<<>>, <<5>>, <<127, 1>>, <<0, 0, 1>>, <<127, 127, 127, 127, 15>>}
Ops == {<<"bs", n>> : n \in Sizes} \cup {<<"b", 1>>} \cup {<<"str", n>> : n \in {0, 3, 128}} \cup {<<"i64", 8>>} \cup {<<"vint", v>> : v \in Vals}
       \cup {<<"seek", x>> : x \in {"start", "end", "middle"}}
VARIABLES f, p, hist, at
vars == <<f, p, hist, at>>
Data(o) == CASE o[1] \in {"bs", "b", "i64"} -> Pat(o[2])
             [] o[1] = "str" -> [i \in 1 .. o[2] |-> 1 + (i % 255)]
             [] OTHER -> o[2]
Init == f = <<>> /\ p = 0 /\ hist = <<>> /\ at = -1
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
             /\ o[1] = "seek" => hist # <<>> /\ Last(hist)[1] # "seek"
             /\ hist' = Append(hist, o)
             /\ IF o[1] = "seek" THEN p' = (CASE o[2] = "start" -> 0 [] o[2] = "end" -> Len(f) [] OTHER -> Len(f) \div 2) /\ f' = f /\ at' = -1
                ELSE LET d == Encode(o[1], Data(o)) IN f' = Splice(f, p, d) /\ p' = p + Len(d) /\ at' = p
Spec == Init /\ [][Next]_vars
(* what was just written is what a read of its kind finds there, and the read ends where the writing ended *)
ReadsBack == at >= 0 => LET o == Last(hist)  x == ReadAt(f, at, o[1], Len(Data(o))) IN x.ok /\ x.v = Data(o) /\ x.to = p
EndsThere == p <= Len(f) /\ \A q \in {0, p, Len(f)} : ReadAt(f, q, "bs", Len(f) - q + 1) = None
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
