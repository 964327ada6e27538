import random, fv
from props import idxcommon as X

class Ep:
    def __init__(self, i, kind, auto, ram, conf, var=0):
        self.id, self.kind, self.auto, self.n = i, kind, auto, 0
        self.cmds = [("config %d %d %d %d %d %d" % ((kind + 2 if var and kind else kind, int(auto), int(ram)) + conf), {"op": "flush", "o": 1})]
    def doc(self, id, k2, w):
        self.n += 1
        return {"u": self.n, "id": id, "k2": k2, "w": w}
    def c(self, op, o, text="", **kw):
        self.cmds.append(("%s %d %s" % (op, o, text), dict(kw, op=op, o=o)))
    def done(self): return {"id": self.id, "kind": self.kind, "auto": self.auto, "cmds": self.cmds}
def ds(d): return "%d,%d,%d,%s" % (d["u"], d["id"], d["k2"], d["w"])
def at(a, r=None): return ("s" if r is None or r.random() < .7 else "y") + str(a["v"]) if a["by"] == "id" else "n%d" % a["v"]

def read(e, o, r, kind=None):
    k = kind or r.choice(["size", "each", "doc", "live", "find", "find", "find", "str"])
    if k == "doc": i = r.choice([1, 2, 3]); e.c("doc", o, str(i), v=i)
    elif k == "find": w = r.choice("ab"); e.c("find", o, "%d %s" % (r.randrange(6), w), w=w)
    else: e.c(k, o)

def from_model(h, i, r):
    kind, hist = h
    e = Ep(i, kind, False, r.random() < .4, (10000, 10, 1))
    opened = {1}; own = 0; docs = set()
    for st in hist:
        o, op, a = st[0], st[1], st[2:]
        if o not in opened: e.c("open", o); opened.add(o)
        e.n = len(e.cmds) * 0 + e.n
        if op == "add": d = e.doc(a[0], 1, a[1]); e.c("add", o, "0 " + ds(d), d=d)
        elif op == "del": e.c("del", o, "s%d" % a[0], a={"by": "id", "v": a[0]})
        elif op == "deln": e.n += 1; e.c("del", o, "n%d" % a[0], a={"by": "n", "v": a[0]})
        elif op == "qdel": e.c("qdel", o, "0 " + a[0], w=a[0])
        elif op == "upd": d = e.doc(a[0], 1, a[1]); e.c("upd", o, "s%d 0 %s" % (a[0], ds(d)), a={"by": "id", "v": a[0]}, d=d)
        elif op == "bupd": d = e.doc(a[0], 1, a[1]); e.c("bupd", o, ds(d), s=[{"by": "id", "v": a[0]}], ds=[d])
        elif op == "qupd": e.c("qupd", o, "0 %s %s" % (a[0], a[1]), w=a[0], x=a[1])
        elif op == "size": e.c("size", o)
        elif op == "find": e.c("find", o, "0 a", w="a")
        elif op == "flush": e.c("flush", o)
        if op not in ("add", "upd", "bupd", "deln"): e.n += 1     # the model names documents by their step
        if op in ("size", "find"): pass
        elif op in ("flush", "bupd"): own = 0
        else: own = o
    me = own or r.choice(sorted(opened))
    for k in r.sample(["each", "size", "find", "live", "doc"], 3): read(e, me, r, k)
    if own: e.c("flush", own)
    for o in (1, 2):
        if o not in opened: e.c("open", o)
        for k in r.sample(["each", "size", "find", "live", "doc", "str"], 3): read(e, o, r, k)
    return e.done()

def history(r, i, big=False):
    kind = r.choice([0, 1, 1, 2]); auto = r.random() < .35; ram = r.random() < .4
    e = Ep(i, kind, auto, ram, (r.choice([2, 3, 10, 10000]), r.choice([2, 3, 10]), r.randrange(2)), r.random() < .3)
    ids, k2s, ws = range(1, r.choice([3, 4, 6, 80] if big else [3, 4, 6])), [1, 2], "aaaab" if big else "ab"
    opened, own, docs = {1}, 0, {}
    key = lambda d: (d["u"],) if kind == 0 else (d["id"],) if kind == 1 else (d["id"], d["k2"])
    nobj = r.choice([1, 1, 2, 3]); persisted = False
    def named(a): return [u for u, d in docs.items() if (d["id"] if a["by"] == "id" else u) == a["v"]]
    def some(live):
        if live and docs and r.random() < .45: return {"by": "n", "v": r.choice(sorted(docs))}
        return {"by": "id", "v": r.choice(ids)}
    for _ in range(r.choice([12, 30, 60])):
        if own: o = own
        else:
            o = r.randrange(1, nobj + 1)
            if o not in opened: e.c("open", o); opened.add(o)
        x = r.random()
        if x < .3:
            for _ in range(r.choice([1, 3, 25, 60] if big else [1, 1, 1, 4])):
                d = e.doc(r.choice(ids), r.choice(k2s), r.choice(ws))
                for u in [u for u, y in docs.items() if key(y) == key(d)]: del docs[u]
                docs[d["u"]] = d; e.c("add", o, "%d %s" % (r.randrange(4), ds(d)), d=d)
            own = 0 if auto else o
        elif x < .36: a = some(True); e.c("del", o, at(a, r), a=a); [docs.pop(u) for u in named(a)]; own = 0 if auto else o
        elif x < .41:
            s = [some(True) for _ in range(r.choice([1, 2, 3]))]
            e.c("bdel", o, "%d %s" % (r.randrange(2), " ".join(at(a, r) for a in s)), s=s)
            for a in s: [docs.pop(u) for u in named(a)]
            own = 0 if auto else o
        elif x < .45: w = r.choice(ws); e.c("qdel", o, "%d %s" % (r.randrange(2), w), w=w); docs = {u: d for u, d in docs.items() if d["w"] != w}; own = 0 if auto else o
        elif x < .53:
            a = some(True)
            d = e.doc(docs[a["v"]]["id"] if a["by"] == "n" else a["v"], docs[a["v"]]["k2"] if a["by"] == "n" else r.choice(k2s), r.choice(ws))
            [docs.pop(u) for u in named(a)]; docs[d["u"]] = d
            e.c("upd", o, "%s %d %s" % (at(a, r), r.randrange(4), ds(d)), a=a, d=d); own = 0 if auto else o
        elif x < .58:
            l = r.sample(list(ids), r.choice([1, 2])); new = [e.doc(j, r.choice(k2s), r.choice(ws)) for j in l]
            s = [{"by": "id", "v": j} for j in l]
            num = [u for u, d in docs.items() if d["id"] in l] if kind != 2 else []
            if num and r.random() < .3:         # document numbers and ids mixed; the document keeps its id
                v = r.choice(num); j = docs[v]["id"]
                s = [{"by": "n", "v": v} if x["v"] == j else x for x in s]
            if all(x["by"] == "id" for x in s) and r.random() < .6: e.c("bupd", o, " ".join(map(ds, new)), s=s, ds=new)
            else: e.c("hupd", o, " ".join("%s %s" % (at(a), ds(d)) for a, d in zip(s, new)), s=s, ds=new)
            for a in s: [docs.pop(u) for u in named(a)]
            docs.update((d["u"], d) for d in new); own = 0
        elif x < .61:
            w, y = r.sample(sorted(set(ws)), 2) if not big or r.random() < .4 else "ab"; e.c("qupd", o, "%d %s %s" % (r.randrange(2), w, y), w=w, x=y)
            for u in docs:
                if docs[u]["w"] == w: docs[u] = dict(docs[u], w=y)
            own = 0 if auto else o
        elif x < .66: e.c("flush", o); own = 0
        elif x < .69: e.c("opt", o); own = 0
        elif x < .71 and (len(opened) > 1 or r.random() < .5):
            e.c("close", o); opened.discard(o); own = 0
            if not opened: e.c("open", 1); opened.add(1)
        elif x < .73 and kind == 0:
            new = [e.doc(r.choice(ids), r.choice(k2s), r.choice(ws)) for _ in range(r.choice([1, 3]))]
            e.c("addidx", o, "%d %s" % (r.randrange(3), " ".join(map(ds, new))), ds=new); docs.update((d["u"], d) for d in new); own = o
        elif x < .74 and ram and not persisted and opened == {1}: e.c("persist", o); persisted = True; own = o
        else:
            for _ in range(r.choice([1, 1, 2])): read(e, o, r)
    if own: e.c("flush", own)
    for o in sorted(opened):
        for k in ("each", "find"): read(e, o, r, k)
    return e.done()

def run(pid):
    c = fv.Check(pid)
    exe = fv.build_ruby("rubydrv.rb")
    hs = c.generate("RubyMC", cfg="RubyMC4.cfg" if fv.THOROUGH else None, timeout=800)
    r = random.Random("%s-%d" % (pid, fv.SEED))
    hs.sort(key=str); hs = r.sample(hs, min(len(hs), X.q(2500, 30000)))
    eps = [from_model(h, "gen%d" % i, random.Random(i)) for i, h in enumerate(hs)]
    eps += [history(r, "h%d" % i) for i, r in X.rnds(pid, "h", X.q(1200, 20000))]
    eps += [history(r, "b%d" % i, True) for i, r in X.rnds(pid, "b", X.q(150, 2500))]
    r.shuffle(eps)
    a = 0
    while a < len(eps) and not c.violations:    # a first small part, since failing histories can be slow (lock timeouts)
        n = 600 if a == 0 else 4000
        c.conform("RubyTrace", exe, eps[a:a + n], timeout=300); a += n
    return c.finish()
NOTE = ("RubyIndex.tla: the Index class as a set of documents with unique keys. TLC enumerates short histories over two Index objects on one directory (RubyMC), "
        "which, with long random ones over every kind of key, auto-flush, deletion, update, merge, closing and saving of a memory index, are replayed on the real class.")
