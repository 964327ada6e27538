-------------------------------- MODULE Coll --------------------------------
(* The core collections (C23) as mathematical objects: a hash table is a
   function, a hash set a sequence without repetitions in order of insertion, a
   priority queue a set of <<key, id>> with a bound, an array a sequence. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
None == -1
EmptyMap == [x \in {} |-> 0]
HSet(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
HDel(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
HGet(m, k) == IF k \in DOMAIN m THEN m[k] ELSE None
SAdd(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
SDel(s, x) == SelectSeq(s, LAMBDA y : y # x)
(* elements a queue may give up first *)
Least(q) == {e \in q : \A d \in q : e[1] <= d[1]}
PInsert(q, capa, e) == IF Cardinality(q) < capa THEN {[out |-> "added", q |-> q \cup {e}, free |-> {}]}
                       ELSE IF \E d \in Least(q) : d[1] < e[1] THEN {[out |-> "inserted", q |-> (q \ {d}) \cup {e}, free |-> {d}] : d \in Least(q)}
                       ELSE {[out |-> "dropped", q |-> q, free |-> {e}]}
APad(s, n) == IF n <= Len(s) THEN s ELSE [i \in 1 .. n |-> IF i <= Len(s) THEN s[i] ELSE None]
ASet(s, i, v) == [APad(s, i + 1) EXCEPT ![i + 1] = v]
ARemove(s, i) == IF i >= 0 /\ i < Len(s) THEN SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s)) ELSE s
AAt(s, i) == LET j == IF i < 0 THEN i + Len(s) ELSE i IN IF j >= 0 /\ j < Len(s) THEN s[j + 1] ELSE None
=============================================================================
