------------------------------- MODULE CollMC -------------------------------
(* Every short history of a hash table over colliding keys, a bounded queue and
   an array, with the laws that make them what they are; the histories are
   replayed on the real collections. *)
EXTENDS Coll, Json
CONSTANTS Depth, Keys, What, Gen
VARIABLES m, q, a, hist
Capa == 3
Ops == CASE What = "hash" -> {<<o, k>> : o \in {"hset", "hdel", "hrem"}, k \in Keys}
         [] What = "queue" -> {<<"pins", k>> : k \in Keys} \cup {<<"ppop", 0>>, <<"pdown", 2>>, <<"pdown", 9>>}
         [] OTHER -> {<<"aset", k>> : k \in Keys} \cup {<<"aremove", k>> : k \in Keys} \cup {<<o, 0>> : o \in {"apush", "apop", "ashift", "aunshift"}}
Init == m = EmptyMap /\ q = {} /\ a = <<>> /\ hist = <<>>
N == Len(hist) + 1
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
           /\ hist' = Append(hist, o)
           /\ m' = (CASE o[1] = "hset" -> HSet(m, o[2], N) [] o[1] \in {"hdel", "hrem"} -> HDel(m, o[2]) [] OTHER -> m)
           /\ \/ o[1] = "pins" /\ \E x \in PInsert(q, Capa, <<o[2], N>>) : q' = x.q
              \/ o[1] = "ppop" /\ IF q = {} THEN q' = q ELSE \E d \in Least(q) : q' = q \ {d}
              \/ o[1] = "pdown" /\ IF q = {} THEN q' = q ELSE \E d \in Least(q) : q' = (q \ {d}) \cup {<<o[2], d[2]>>}
              \/ o[1] \notin {"pins", "ppop", "pdown"} /\ q' = q
           /\ a' = (CASE o[1] = "aset" -> ASet(a, o[2], N) [] o[1] = "aremove" -> ARemove(a, o[2]) [] o[1] = "apush" -> Append(a, N)
                      [] o[1] = "apop" -> (IF a = <<>> THEN a ELSE Front(a)) [] o[1] = "ashift" -> (IF a = <<>> THEN a ELSE Tail(a)) [] o[1] = "aunshift" -> <<N>> \o a [] OTHER -> a)
Spec == Init /\ [][Next]_<<m, q, a, hist>>
(* a key holds what was last put there, unless it was removed since *)
LastWins == What = "hash" => \A k \in Keys : HGet(m, k) = LET S == {i \in 1 .. Len(hist) : hist[i][2] = k} IN
              IF S = {} THEN None ELSE LET i == CHOOSE i \in S : \A j \in S : j <= i IN IF hist[i][1] = "hset" THEN i ELSE None
(* with insertions only, the queue holds the greatest of what was offered *)
KBest == (What = "queue" /\ \A i \in 1 .. Len(hist) : hist[i][1] = "pins") =>
           /\ Cardinality(q) = (IF Len(hist) < Capa THEN Len(hist) ELSE Capa)
           /\ \A i \in 1 .. Len(hist) : <<hist[i][2], i>> \notin q => \A d \in q : d[1] >= hist[i][2]
Bounded == Cardinality(q) <= Capa
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
