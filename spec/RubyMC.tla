------------------------------ MODULE RubyMC ------------------------------
(* Every short history of Index calls, keys kept unique throughout.  A read is
   written as its own step, so that histories differ in when the object last
   had a reader or a writer open; the histories are replayed on the real class. *)
EXTENDS RubyIndex, TLC, Json
CONSTANTS Depth, Ids, Ws, Kinds, Gen
VARIABLES kind, docs, own, hist
N == Len(hist) + 1
Objs == {1, 2}
Pairs == {<<i, w>> : i \in Ids, w \in Ws}
Doc(i, w) == [u |-> N, id |-> i, k2 |-> 1, w |-> w]
Init == kind \in Kinds /\ docs = {} /\ own = 0 /\ hist = <<>>
Do(o, h, D, w) == /\ own \in {0, o} /\ docs' = D /\ own' = w /\ hist' = Append(hist, <<o>> \o h) /\ kind' = kind
Act(o) == \/ \E i \in Ids, w \in Ws : Do(o, <<"add", i, w>>, AddDoc(kind, docs, Doc(i, w)), o)
          \/ \E i \in Ids : Do(o, <<"del", i>>, docs \ WithId(docs, i), o)
          \/ \E d \in docs : Do(o, <<"deln", d.u>>, docs \ {d}, o)
          \/ \E w \in Ws : Do(o, <<"qdel", w>>, docs \ WithW(docs, w), o)
          \/ \E i \in Ids, w \in Ws : Do(o, <<"upd", i, w>>, Update(docs, [by |-> "id", v |-> i], Doc(i, w)), o)
          \/ \E i \in Ids, w \in Ws : Do(o, <<"bupd", i, w>>, BatchUpdate(docs, <<[by |-> "id", v |-> i]>>, <<Doc(i, w)>>), 0)
          \/ \E w, x \in Ws : w # x /\ Do(o, <<"qupd", w, x>>, QueryUpdate(docs, w, x), o)
          \/ \E r \in {"size", "find"} : Do(o, <<r>>, docs, own)
          \/ own # 0 /\ Do(o, <<"flush">>, docs, 0)
Next == Len(hist) < Depth /\ \E o \in Objs : (hist = <<>> => o = 1) /\ Act(o)
Spec == Init /\ [][Next]_<<kind, docs, own, hist>>
Unique == OneKeyEach(kind, docs)
OneDocEach == \A a, b \in docs : a.u = b.u => a = b
(* the last change to an id decides whether it is there, when nothing else touches it *)
LastAdd == \A i \in Ids : (hist # <<>> /\ hist[Len(hist)][2] \in {"add", "upd", "bupd"} /\ hist[Len(hist)][3] = i) =>
             \E d \in docs : d.u = Len(hist) /\ d.id = i
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"GEN", ToJson(<<kind, hist>>)>>)
=============================================================================
