----------------------------- MODULE RubyIndex -----------------------------
(* The Ruby Index class: a set of documents [u, id, k2, w], u naming the
   document added, with at most one document per key.  Several Index objects
   may share a directory: own is the object holding changes it has not flushed
   (0 when there are none); only it, or anyone when own = 0, may go on. *)
EXTENDS Integers, Sequences, FiniteSets
KeyOf(kind, d) == CASE kind = 0 -> <<d.u>> [] kind = 1 -> <<d.id>> [] OTHER -> <<d.id, d.k2>>
OneKeyEach(kind, D) == \A a, b \in D : KeyOf(kind, a) = KeyOf(kind, b) => a = b
WithId(D, i) == {d \in D : d.id = i}
WithW(D, w) == {d \in D : d.w = w}
WithU(D, u) == {d \in D : d.u = u}
AddDoc(kind, D, d) == {x \in D : KeyOf(kind, x) # KeyOf(kind, d)} \cup {d}
(* what a delete or update is told to remove: an id, or a document number *)
Named(D, a) == IF a.by = "id" THEN WithId(D, a.v) ELSE WithU(D, a.v)
NamedAll(D, s) == UNION {Named(D, s[i]) : i \in DOMAIN s}
Update(D, a, d) == (D \ Named(D, a)) \cup {d}
BatchUpdate(D, s, ds) == (D \ NamedAll(D, s)) \cup {ds[i] : i \in DOMAIN ds}
QueryUpdate(D, w, x) == {IF d.w = w THEN [d EXCEPT !.w = x] ELSE d : d \in D}
=============================================================================
