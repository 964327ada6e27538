----------------------------- MODULE CollTrace -----------------------------
EXTENDS TraceBase, Coll
(* state: h tables, s sets, p queues, a arrays, c the queues' capacities.  Every
   reply also lists the values (f) and keys (fk) that were freed meanwhile: each
   object the collection gives up is freed once, nothing else is. *)
R == 0 .. 7
EpInit(E) == [h |-> [k \in R |-> EmptyMap], s |-> [k \in R |-> <<>>], p |-> [k \in R |-> {}], a |-> [k \in R |-> <<>>], c |-> [k \in R |-> 0]]
Bag(q) == [x \in ToSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Freed(r, vs, ks) == Bag(r.f) = Bag(vs) /\ Bag(r.fk) = Bag(ks)
Nothing(r) == r.f = <<>> /\ r.fk = <<>>
Vals(m) == LET d == SetToSeq(DOMAIN m) IN [i \in 1 .. Len(d) |-> m[d[i]]]
Keys(m, int) == IF int = 1 THEN <<>> ELSE SetToSeq(DOMAIN m)
B(x) == IF x THEN 1 ELSE 0
Judge(e, s, E) ==
  LET x == e.a  r == e.r IN
  CASE e.op = "hnew" -> Ok([s EXCEPT !.h[x] = EmptyMap])
    [] e.op = "hset" -> LET m == s.h[x]  old == e.k \in DOMAIN m IN
         Expect((r.v # 0) = old /\ IF old THEN Freed(r, <<m[e.k]>>, IF e.int = 1 THEN <<>> ELSE <<e.k>>) ELSE Nothing(r), [s EXCEPT !.h[x] = HSet(@, e.k, e.v)], [old |-> HGet(m, e.k)])
    [] e.op = "hsame" -> LET m == s.h[x] IN     \* the value a key has, stored again: it stays
         Expect(IF e.k \in DOMAIN m THEN r.v > 0 /\ Freed(r, <<>>, IF e.int = 1 THEN <<>> ELSE <<e.k>>) ELSE r.v = -1 /\ Nothing(r), s, [old |-> HGet(m, e.k)])
    [] e.op = "hsets" -> LET m == s.h[x]  old == e.k \in DOMAIN m IN
         Expect((r.v = 0) = old /\ Nothing(r), IF old THEN s ELSE [s EXCEPT !.h[x] = HSet(@, e.k, e.v)], [old |-> HGet(m, e.k)])
    [] e.op = "hget" -> Expect(r.v = HGet(s.h[x], e.k) /\ Nothing(r), s, [v |-> HGet(s.h[x], e.k)])
    [] e.op = "hhas" -> Expect(r.v = B(e.k \in DOMAIN s.h[x]) /\ Nothing(r), s, [keys |-> DOMAIN s.h[x]])
    [] e.op = "hdel" -> LET m == s.h[x] IN
         Expect(r.v = B(e.k \in DOMAIN m) /\ IF e.k \in DOMAIN m THEN Freed(r, <<m[e.k]>>, IF e.int = 1 THEN <<>> ELSE <<e.k>>) ELSE Nothing(r), [s EXCEPT !.h[x] = HDel(@, e.k)], [v |-> HGet(m, e.k)])
    [] e.op = "hrem" -> LET m == s.h[x] IN
         Expect(r.v = HGet(m, e.k) /\ IF e.k \in DOMAIN m THEN Freed(r, <<>>, IF e.int = 1 THEN <<>> ELSE <<e.k>>) ELSE Nothing(r), [s EXCEPT !.h[x] = HDel(@, e.k)], [v |-> HGet(m, e.k)])
    [] e.op \in {"hclear", "hdestroy"} -> Expect(Freed(r, Vals(s.h[x]), Keys(s.h[x], e.int)), [s EXCEPT !.h[x] = EmptyMap], [freed |-> s.h[x]])
    [] e.op = "hclone" -> Expect(Nothing(r), [s EXCEPT !.h[x] = s.h[e.b]], "nothing is freed")
    [] e.op = "heach" -> LET m == s.h[x] IN
         Expect(/\ r.size = Cardinality(DOMAIN m) /\ Len(r.v) = r.size /\ Nothing(r)
                /\ IF e.int = 1 THEN Bag([i \in DOMAIN r.v |-> r.v[i][2]]) = Bag(Vals(m))
                   ELSE {r.v[i] : i \in DOMAIN r.v} = {<<k, m[k]>> : k \in DOMAIN m}, s, [map |-> m])
    (* sets *)
    [] e.op = "snew" -> Ok([s EXCEPT !.s[x] = <<>>])
    [] e.op = "sadd" -> LET q == s.s[x]  old == e.k \in ToSet(q) IN
         Expect(r.v = B(old) /\ (IF old THEN Freed(r, <<>>, <<e.k>>) ELSE Nothing(r)), [s EXCEPT !.s[x] = SAdd(q, e.k)], [set |-> q])
    [] e.op = "sadds" -> LET q == s.s[x]  old == e.k \in ToSet(q) IN Expect(r.v = B(~old) /\ Nothing(r), [s EXCEPT !.s[x] = SAdd(q, e.k)], [set |-> q])
    [] e.op = "saddsame" -> Expect(r.v = 2 /\ Nothing(r), s, [set |-> s.s[x]])
    [] e.op = "sdel" -> LET old == e.k \in ToSet(s.s[x]) IN Expect(r.v = B(old) /\ (IF old THEN Freed(r, <<>>, <<e.k>>) ELSE Nothing(r)), [s EXCEPT !.s[x] = SDel(@, e.k)], [set |-> s.s[x]])
    [] e.op = "srem" -> Expect(r.v = B(e.k \in ToSet(s.s[x])) /\ Nothing(r), [s EXCEPT !.s[x] = SDel(@, e.k)], [set |-> s.s[x]])
    [] e.op = "shas" -> Expect(r.v = B(e.k \in ToSet(s.s[x])) /\ Nothing(r), s, [set |-> s.s[x]])
    [] e.op = "sorig" -> Expect(r.v = IF e.k \in ToSet(s.s[x]) THEN e.k ELSE "21", s, [set |-> s.s[x]])
    [] e.op = "smerge" -> LET q == s.s[x]  o == s.s[e.b] IN
         Expect(Freed(r, <<>>, SelectSeq(o, LAMBDA y : y \in ToSet(q))), [s EXCEPT !.s[x] = q \o SelectSeq(o, LAMBDA y : y \notin ToSet(q)), !.s[e.b] = <<>>], [a |-> q, b |-> o])
    [] e.op \in {"sclear", "sdestroy"} -> Expect(Freed(r, <<>>, s.s[x]), [s EXCEPT !.s[x] = <<>>], [set |-> s.s[x]])
    [] e.op = "sdump" -> Expect(r.size = Len(s.s[x]) /\ r.v = s.s[x] /\ r.rev = Reverse(s.s[x]), s, [set |-> s.s[x]])
    (* queues *)
    [] e.op = "pnew" -> Ok([s EXCEPT !.p[x] = {}, !.c[x] = e.n])
    [] e.op = "pins" ->
         LET ok == {o \in PInsert(s.p[x], s.c[x], <<e.k, e.v>>) : r.v = (CASE o.out = "added" -> 1 [] o.out = "inserted" -> 2 [] OTHER -> 0) /\ Bag(r.f) = Bag(SetToSeq({d[2] : d \in o.free}))}
         IN IF ok = {} THEN Reject(s, [insert |-> PInsert(s.p[x], s.c[x], <<e.k, e.v>>)]) ELSE Ok([s EXCEPT !.p[x] = (CHOOSE o \in ok : TRUE).q])
    [] e.op = "ppush" -> Expect(Nothing(r), [s EXCEPT !.p[x] = @ \cup {<<e.k, e.v>>}], "")
    [] e.op = "ppop" -> IF s.p[x] = {} THEN Expect(r.v = None, s, "empty")
                        ELSE Expect(\E d \in Least(s.p[x]) : d[2] = r.v /\ Nothing(r), [s EXCEPT !.p[x] = {d \in @ : d[2] # r.v}], [least |-> Least(s.p[x])])
    [] e.op = "ptop" -> IF s.p[x] = {} THEN Expect(r.v = None, s, "empty") ELSE Expect(\E d \in Least(s.p[x]) : d[2] = r.v /\ Nothing(r), s, [least |-> Least(s.p[x])])
    [] e.op = "pdown" -> IF s.p[x] = {} THEN Expect(r.v = None, s, "empty")
                         ELSE Expect(\E d \in Least(s.p[x]) : d[2] = r.v, [s EXCEPT !.p[x] = {d \in @ : d[2] # r.v} \cup {<<e.k, r.v>>}], [least |-> Least(s.p[x])])
    [] e.op \in {"pclear", "pdestroy"} -> Expect(Bag(r.f) = Bag(SetToSeq({d[2] : d \in s.p[x]})), [s EXCEPT !.p[x] = {}], [queue |-> s.p[x]])
    [] e.op = "pclone" -> Ok([s EXCEPT !.p[x] = s.p[e.b], !.c[x] = s.c[e.b]])
    [] e.op = "psize" -> Expect(r.v = Cardinality(s.p[x]) /\ r.full = B(Cardinality(s.p[x]) = s.c[x]), s, [queue |-> s.p[x]])
    (* arrays *)
    [] e.op = "anew" -> Ok([s EXCEPT !.a[x] = <<>>])
    [] e.op = "apush" -> Ok([s EXCEPT !.a[x] = Append(@, e.v)])
    [] e.op = "aunshift" -> Ok([s EXCEPT !.a[x] = <<e.v>> \o @])
    [] e.op = "apop" -> LET q == s.a[x] IN Expect(r.v = IF q = <<>> THEN None ELSE Last(q), [s EXCEPT !.a[x] = IF q = <<>> THEN q ELSE Front(q)], [array |-> q])
    [] e.op = "ashift" -> LET q == s.a[x] IN Expect(r.v = IF q = <<>> THEN None ELSE Head(q), [s EXCEPT !.a[x] = IF q = <<>> THEN q ELSE Tail(q)], [array |-> q])
    [] e.op = "aset" -> LET n == Len(s.a[x]) IN
         IF e.i < -n THEN Expect(e.err # "", s, "no such element") ELSE Expect(e.err = "", [s EXCEPT !.a[x] = ASet(@, IF e.i < 0 THEN e.i + n ELSE e.i, e.v)], "")
    [] e.op = "aget" -> Expect(r.v = AAt(s.a[x], e.i), s, [array |-> s.a[x]])
    [] e.op = "aremove" -> Expect(r.v = (IF e.i < 0 THEN None ELSE AAt(s.a[x], e.i)), [s EXCEPT !.a[x] = ARemove(@, e.i)], [array |-> s.a[x]])
    [] e.op = "adelete" -> Expect(r.f = <<AAt(s.a[x], e.i)>>, [s EXCEPT !.a[x] = ARemove(@, e.i)], [array |-> s.a[x]])
    [] e.op = "aresize" -> Ok([s EXCEPT !.a[x] = APad(@, e.i + 1)])
    [] e.op = "agrow" -> Ok([s EXCEPT !.a[x] = Append(@, None)])
    [] e.op = "adump" -> Expect(r.size = Len(s.a[x]) /\ r.v = s.a[x], s, [array |-> s.a[x]])
    [] e.op = "adestroy" -> Expect(Bag(r.f) = Bag(s.a[x]), [s EXCEPT !.a[x] = <<>>], [array |-> s.a[x]])
    [] OTHER -> Reject(s, "no action of the specification explains this")
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
