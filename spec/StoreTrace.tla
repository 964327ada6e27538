---------------------------- MODULE StoreTrace ----------------------------
EXTENDS TraceBase, Store
(* state: files f (inode -> bytes), stores d (name -> inode) with their kind,
   output streams o and input streams i, n the next inode *)
Empty == [x \in {} |-> 0]
EpInit(E) == [f |-> Empty, d |-> [k \in 0 .. 23 |-> Empty], kind |-> [k \in 0 .. 23 |-> "none"], o |-> [k \in 0 .. 23 |-> <<>>], i |-> [k \in 0 .. 23 |-> <<>>], n |-> 1, p |-> Empty]
Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Del(fn, S) == [x \in DOMAIN fn \ S |-> fn[x]]
New(s, k, name, bytes) == [s EXCEPT !.f = Put(s.f, s.n, bytes), !.d[k] = Put(s.d[k], name, s.n), !.n = s.n + 1]
(* store k holds new files with the given contents *)
Fresh(s, k, c) == LET ns == SetToSeq(DOMAIN c)  ix(x) == s.n - 1 + CHOOSE q \in 1 .. Len(ns) : ns[q] = x IN
  [s EXCEPT !.d[k] = [x \in DOMAIN c |-> ix(x)], !.n = @ + Len(ns), !.f = [q \in DOMAIN s.f \cup s.n .. s.n + Len(ns) - 1 |-> IF q \in DOMAIN s.f THEN s.f[q] ELSE c[ns[q - s.n + 1]]]]
Names(s, k) == {x \in DOMAIN s.d[k] : TRUE}
File(s, k, name) == s.f[s.d[k][name]]
Write(s, a, bytes) == LET h == s.o[a] IN [s EXCEPT !.f[h[1]] = Splice(@, h[2], bytes), !.o[a] = <<h[1], h[2] + Len(bytes)>>]
TooLong(f, p, kind) == kind \in {"vint", "voff", "vll"} /\ p + 11 <= Len(f) + 1 /\ \A i \in p + 1 .. p + 10 : f[i] >= 128
Raised(e) == e.err # ""
IsLock(x) == x = "ferret-b.lck"
Judge(e, s, E) ==
  CASE e.op = "st" -> Ok([s EXCEPT !.d[e.a] = IF e.fresh = 1 THEN Empty ELSE s.d[e.from], !.kind[e.a] = e.kind])
    [] e.op = "stclose" -> Ok([s EXCEPT !.kind[e.a] = "none"])
    [] e.op = "touch" -> Ok(IF e.name \in Names(s, e.a) THEN s ELSE New(s, e.a, e.name, <<>>))
    [] e.op = "exists" -> Expect((e.r.v = 1) = (e.name \in Names(s, e.a)), s, [names |-> Names(s, e.a)])
    [] e.op = "remove" -> Ok([s EXCEPT !.d[e.a] = Del(@, {e.name})])
    [] e.op = "rename" ->
         IF e.name \in Names(s, e.a) THEN Expect(~Raised(e), [s EXCEPT !.d[e.a] = Put(Del(@, {e.name}), e.to, s.d[e.a][e.name])], "the file exists and can be renamed")
         ELSE Expect(Raised(e), s, "no such file to rename")
    [] e.op = "count" -> Expect(e.r.v = Cardinality(Names(s, e.a)), s, [names |-> Names(s, e.a)])
    [] e.op \in {"each", "tos"} ->
         Expect(/\ ToSet(e.r.v) = {x \in Names(s, e.a) : ~IsLock(x)} /\ Len(e.r.v) = Cardinality(ToSet(e.r.v)), s, [names |-> Names(s, e.a)])
    [] e.op = "length" ->
         IF e.name \in Names(s, e.a) THEN Expect(~Raised(e) /\ e.r.v = Len(File(s, e.a, e.name)), s, [len |-> Len(File(s, e.a, e.name))])
         ELSE Expect(Raised(e) \/ e.r.v = 0, s, "no such file")
    [] e.op = "clear" -> Ok([s EXCEPT !.d[e.a] = Del(@, {x \in DOMAIN @ : ~IsLock(x) /\ (s.kind[e.a] = "ram" \/ x \in ToSet(E.ixf))})])
    [] e.op = "clearall" -> Ok([s EXCEPT !.d[e.a] = Del(@, {x \in DOMAIN @ : s.kind[e.a] = "ram" \/ x \in ToSet(E.ixf)})])
    [] e.op = "clearlocks" -> Ok([s EXCEPT !.d[e.a] = Del(@, {x \in DOMAIN @ : IsLock(x)})])
    [] e.op = "copy" -> Ok([Fresh(s, e.a, [x \in {y \in Names(s, e.b) : ~IsLock(y)} |-> File(s, e.b, x)]) EXCEPT !.kind[e.a] = "ram"])
    [] e.op = "cw" ->                        \* the bytes of the packed file itself are left open; only its files count
         IF ToSet(e.files) \subseteq Names(s, e.a) /\ e.files # <<>> /\ Len(e.files) = Cardinality(ToSet(e.files))
         THEN Expect(~Raised(e), [New(s, e.a, e.name, <<>>) EXCEPT !.p = Put(@, s.n, [x \in ToSet(e.files) |-> File(s, e.a, x)])], "the files can be packed")
         ELSE Expect(Raised(e), s, "these files cannot be packed")
    [] e.op = "cmpd" -> Ok([Fresh(s, e.a, s.p[s.d[e.b][e.name]]) EXCEPT !.kind[e.a] = "cmpd"])
    [] e.op = "out" -> Ok([(IF e.name \in Names(s, e.b) THEN [s EXCEPT !.f[s.d[e.b][e.name]] = <<>>] ELSE New(s, e.b, e.name, <<>>))
                           EXCEPT !.o[e.a] = <<IF e.name \in Names(s, e.b) THEN s.d[e.b][e.name] ELSE s.n, 0>>])
    [] e.op = "buf" -> Ok([s EXCEPT !.f = Put(@, s.n, <<>>), !.o[e.a] = <<s.n, 0>>, !.n = @ + 1])
    [] e.op = "w" -> Ok(Write(s, e.a, Encode(e.kind, e.v)))
    [] e.op = "oseek" -> Ok([s EXCEPT !.o[e.a][2] = e.p])
    [] e.op = "opos" -> Expect(e.r.v = s.o[e.a][2], s, [pos |-> s.o[e.a][2]])
    [] e.op \in {"oflush", "iclose"} -> Ok(s)
    [] e.op = "oclose" -> Ok([s EXCEPT !.o[e.a] = <<>>])
    [] e.op = "olen" -> Expect(e.r.v = Len(s.f[s.o[e.a][1]]), s, [len |-> Len(s.f[s.o[e.a][1]])])     \* after a flush
    [] e.op = "reset" -> Ok([s EXCEPT !.f[s.o[e.a][1]] = <<>>, !.o[e.a][2] = 0])
    [] e.op = "to" -> Ok(Write(s, e.b, s.f[s.o[e.a][1]]))
    [] e.op = "in" -> IF e.name \in Names(s, e.b) THEN Expect(~Raised(e), [s EXCEPT !.i[e.a] = <<s.d[e.b][e.name], 0>>], "the file can be opened")
                      ELSE Expect(Raised(e), s, "no such file")
    [] e.op = "clone" -> Ok([s EXCEPT !.i[e.a] = s.i[e.b]])
    [] e.op = "iseek" -> Ok([s EXCEPT !.i[e.a] = <<@[1], e.p>>])
    [] e.op = "ipos" -> Expect(s.i[e.a][2] < 0 \/ e.r.v = s.i[e.a][2], s, [pos |-> s.i[e.a][2]])
    [] e.op = "ilen" -> Expect(e.r.v = Len(s.f[s.i[e.a][1]]), s, [len |-> Len(s.f[s.i[e.a][1]])])
    [] e.op = "r" ->
         LET h == s.i[e.a]  x == ReadAt(s.f[h[1]], h[2], e.kind, e.n)
             to == [s EXCEPT !.i[e.a][2] = IF x.ok THEN x.to ELSE -1]         \* after an error the position is open until the next seek
         IN IF h[2] < 0 THEN Ok(s)
            ELSE IF TooLong(s.f[h[1]], h[2], e.kind) THEN Ok([s EXCEPT !.i[e.a][2] = -1])       \* not a number
            ELSE IF x.ok THEN Expect(~Raised(e) /\ ((e.kind \in {"vint", "voff", "vll"} /\ Len(x.v) > MaxGroups(e.kind)) \/ e.r.v = x.v), to, [v |-> x.v, file |-> Len(s.f[h[1]]), at |-> h[2]])
            ELSE Expect(Raised(e) \/ (e.kind \in {"b", "bs"} /\ e.n = 0), to, "the file ends before")
    [] e.op = "skipv" ->
         LET h == s.i[e.a]  t == VSkip(s.f[h[1]], h[2], e.n) IN
         IF h[2] < 0 THEN Ok(s) ELSE Expect(Raised(e) = (t < 0), [s EXCEPT !.i[e.a][2] = t], [to |-> t])
    [] e.op \in {"cpb", "cpv"} ->
         LET h == s.i[e.a]  f == s.f[h[1]]
             t == IF e.op = "cpb" THEN (IF h[2] + e.n > Len(f) THEN -1 ELSE h[2] + e.n) ELSE VSkip(f, h[2], e.n)
         IN Expect(h[2] >= 0 /\ t >= 0 /\ ~Raised(e), [Write(s, e.b, SubSeq(f, h[2] + 1, t)) EXCEPT !.i[e.a][2] = t], [to |-> t])    \* generated within the file
    [] OTHER -> Reject(s, "no action of the specification explains this")
Init == Start /\ st = EpInit(Episodes[ep])
Next == More /\ Step(IF Fatal(Ev) THEN FatalVerdict(Ev, st) ELSE Judge(Ev, st, Episodes[ep]))
Spec == Init /\ [][Next]_tvars
=============================================================================
