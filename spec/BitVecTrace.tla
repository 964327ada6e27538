---------------------------- MODULE BitVecTrace ----------------------------
EXTENDS TraceBase, BitVec
(* state: function from register names to vectors *)
EpInit(E) == [k \in 1 .. 4 |-> Empty]
DumpOk(v, r) ==
  /\ r.count = Count(v)
  /\ \A k \in 1 .. Len(r.pos) : (r.get[k] = 1) = Member(v, r.pos[k])
  /\ ScanAllOk(v, TRUE, r.scan)
  /\ ScanAllOk(v, FALSE, r.unscan)
Judge(e, s, E) ==
  CASE e.op = "new" -> Ok([s EXCEPT ![e.a] = Empty])
    [] e.op = "set" -> Ok([s EXCEPT ![e.a] = SetBit(@, e.i, TRUE)])
    [] e.op = "unset" -> Ok([s EXCEPT ![e.a] = SetBit(@, e.i, FALSE)])
    [] e.op = "fast" -> Ok([s EXCEPT ![e.a] = [ext |-> FALSE, x |-> ToSet(e.bits), size |-> IF e.bits = <<>> THEN 0 ELSE Last(e.bits) + 1]])
    [] e.op = "clear" -> Ok([s EXCEPT ![e.a] = Empty])
    [] e.op \in {"and", "or", "xor"} -> Ok([s EXCEPT ![e.d] = BinOp(e.op, s[e.a], s[e.b])])
    [] e.op = "not" -> Ok([s EXCEPT ![e.d] = NotV(s[e.a])])
    [] e.op = "recount" -> Expect(e.r.v = Count(s[e.a]), s, [count |-> Count(s[e.a])])
    [] e.op = "next" -> Expect(ScanOk(s[e.a], TRUE, e.i, e.r.v), s, [scan_from |-> e.i, v |-> s[e.a]])
    [] e.op = "nextunset" -> Expect(ScanOk(s[e.a], FALSE, e.i, e.r.v), s, [scan_from |-> e.i, v |-> s[e.a]])
    [] e.op = "eq" -> Expect(/\ (e.r.eq = 1) = SameSet(s[e.a], s[e.b])
                             /\ SameSet(s[e.a], s[e.b]) => e.r.ha = e.r.hb, s, [eq |-> SameSet(s[e.a], s[e.b])])
    [] e.op = "dump" -> Expect(DumpOk(s[e.a], e.r), s, [count |-> Count(s[e.a]), vec |-> s[e.a]])
    [] OTHER -> Reject(s, "no action of the specification explains this")
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
