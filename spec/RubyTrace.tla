---------------------------- MODULE RubyTrace ----------------------------
EXTENDS TraceBase, RubyIndex
(* state: kind of key, documents, the object holding unflushed changes *)
EpInit(E) == [kind |-> E.kind, auto |-> E.auto, docs |-> {}, own |-> 0]
May(s, e) == s.own \in {0, e.o}
Changed(s, e, D) == Ok([s EXCEPT !.docs = D, !.own = IF s.auto THEN 0 ELSE e.o])
Flushed(s, e, D) == Ok([s EXCEPT !.docs = D, !.own = 0])
Bag(q, D, F(_)) == Len(q) = Cardinality(D) /\ \A d \in D : Cardinality({i \in DOMAIN q : q[i] = F(d)}) = Cardinality({x \in D : F(x) = F(d)})
U(d) == ToString(d.u)
All(d) == <<ToString(d.u), ToString(d.id), ToString(d.k2), d.w>>
Judge(e, s, E) ==
  LET D == s.docs IN
  CASE ~May(s, e) -> Reject(s, "the history leaves the specification")
    [] e.op = "open" -> Ok(s)
    [] e.op = "close" -> Flushed(s, e, D)
    [] e.op = "flush" -> Flushed(s, e, D)
    [] e.op = "opt" -> Flushed(s, e, D)
    [] e.op = "persist" -> Ok([s EXCEPT !.own = e.o])
    [] e.op = "add" -> Changed(s, e, AddDoc(s.kind, D, e.d))
    [] e.op = "del" -> Changed(s, e, D \ Named(D, e.a))
    [] e.op = "bdel" -> Changed(s, e, D \ NamedAll(D, e.s))
    [] e.op = "qdel" -> Changed(s, e, D \ WithW(D, e.w))
    [] e.op = "upd" -> Changed(s, e, Update(D, e.a, e.d))
    [] e.op \in {"bupd", "hupd"} -> Flushed(s, e, BatchUpdate(D, e.s, e.ds))
    [] e.op = "qupd" -> Changed(s, e, QueryUpdate(D, e.w, e.x))
    [] e.op = "addidx" -> Ok([s EXCEPT !.docs = D \cup ToSet(e.ds), !.own = e.o])
    [] e.op = "size" -> Expect(e.r.v = Cardinality(D), s, D)
    [] e.op = "each" -> Expect(Bag(e.r.v, D, All), s, D)
    [] e.op = "live" -> Expect(Bag(e.r.v, D, U), s, D)
    [] e.op = "str" -> Expect(Bag(e.r.v, D, U), s, D)
    [] e.op = "doc" -> Expect(LET S == WithId(D, e.v) IN IF S = {} THEN e.r.v = <<>> ELSE \E d \in S : e.r.v = <<U(d)>>, s, D)
    [] e.op = "find" -> Expect(Bag(e.r.v, WithW(D, e.w), U) /\ e.r.n = Cardinality(WithW(D, e.w)), s, D)
    [] OTHER -> Reject(s, "no action of the specification explains this")
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
