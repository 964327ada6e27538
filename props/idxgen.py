"""Generates histories for the index and search layers.  It keeps only enough book-keeping to
issue sensible calls (which handles are open, which documents exist); what the calls must answer
is decided by the specification alone."""
import hashlib, random
import fv
from fv import hx

def atom(b): return b.hex() if len(b) <= 24 else "#" + hashlib.sha1(b).hexdigest()
def cut(t): return t[:254]          # terms hold at most 254 bytes
WS = b" \t\n\v\f\r"
def toks_ws(b):
    """whitespace tokenisation: (token, start, end), as the whitespace analyser documents it"""
    out, i = [], 0
    b0 = b.split(b"\0")[0]
    while i < len(b0):
        while i < len(b0) and b0[i] in WS: i += 1
        j = i
        while j < len(b0) and b0[j] not in WS: j += 1
        if j > i: out.append((cut(b0[i:j]), i, j))
        i = j
    return out

BOOSTS = [(1, 1)] * 6 + [(2, 1), (1, 2), (3, 1), (5, 2), (1, 4), (10, 1), (3, 4)]

class Ep:
    def __init__(self, rnd, eid, fields=("a", "b", "c", "d"), words=None, nwords=12, longvals=False, boosts=True, maxtok=9, longwords=False, mfl=0):
        self.rnd, self.id = rnd, eid
        self.cmds, self.docs, self.sch = [], [], []
        self.fields = list(fields)
        self.mfl = mfl; self.longwords = longwords; self.boosts = boosts; self.longvals = longvals; self.maxtok = maxtok
        self.words = words or self.mkwords(nwords)
        self.extra = set()              # terms mentioned other than in documents
        self.writers, self.readers, self.searchers = {}, {}, {}
        self.stores = {}                # k -> dict(schema, name, docs)
        self.nid = 0

    def mkwords(self, n):
        r = self.rnd; s = set()
        alph = r.choice([b"ab", b"abc", b"abcdefgh", b"ab\xc3\xa9\x7f\x80\xff", b"aZ09_-."])
        while len(s) < n:
            w = bytes(r.choice(alph) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6, 9])))
            if r.random() < .04: w = w * r.randrange(1, 25)
            w = w[:200]
            if self.longwords and r.random() < .35: w = (w * 300)[:r.choice([252, 253, 254, 255, 256, 257, 300, 600])]
            s.add(w)
        return sorted(s)

    def c(self, cmd, **ev): self.cmds.append((cmd, ev))

    # ---- schemas and stores
    def schema(self, fields=None, kind=None):
        r = self.rnd
        def cfg():
            ix = r.choice([1, 3, 3, 3, 3, 5, 7, 0])
            st = r.choice([0, 1, 1, 1, 2])
            tv = r.choice([0, 0, 1, 3, 5, 7, 7]) if ix else 0
            bn, bd = r.choice(BOOSTS) if self.boosts else (1, 1)
            return dict(st=st, ix=ix, tv=tv, bn=bn, bd=bd)
        f = {x: cfg() for x in (fields if fields is not None else self.fields)}
        if kind: f = {x: dict(kind) for x in f}
        for x in list(f):
            if r.random() < .15 and not kind: del f[x]
        idc = dict(st=1, ix=r.choice([1, 5]), tv=0, bn=1, bd=1)
        names = list(f) + ["id"]; r.shuffle(names)
        f["id"] = idc
        d = cfg(); d["bn"], d["bd"] = 1, 1
        if kind: d = dict(kind, bn=1, bd=1)
        self.sch.append(dict(f={n: f[n] for n in names}, **{"def": d}))
        return len(self.sch)

    def store(self, k, sch=None, ram=None, kind=None, name=None):
        ram = self.rnd.random() < .35 if ram is None else ram
        self.c("store %d ram" % k if ram else "store %d fs %s" % (k, name or "s%d" % k), op="store", k=k)
        s = sch or self.schema(kind=kind)
        self.stores[k] = dict(sch=s, ram=ram, docs=[], name=name or "s%d" % k)
        self.create(k, s)

    def create(self, k, s):
        z = self.sch[s - 1]; d = z["def"]
        self.c("create %d %d %d %d %d %s" % (k, d["st"], d["ix"], d["tv"], len(z["f"]),
               " ".join("%s %d %d %d %r" % (hx(n), c["st"], c["ix"], c["tv"], c["bn"] / c["bd"]) for n, c in z["f"].items())), op="create", k=k)

    # ---- documents
    def value(self, f, cfg):
        r = self.rnd
        if cfg["ix"] == 0:
            n = r.choice([0, 1, 3, 10, 40]) if not self.longvals else r.choice([0, 1, 20, 127, 128, 1023, 1024, 1025, 3000, 16347, 16348, 16349, 20000, 33000])
            return bytes(r.randrange(256) for _ in range(n)) if n < 2000 or r.random() < .5 else bytes([r.randrange(256)]) * n
        if cfg["ix"] in (1, 5): return r.choice(self.words)
        n = r.choice([0, 1, 1, 2, 3, 5, self.maxtok])
        if self.longvals and r.random() < .15: n = r.choice([100, 400])
        w = [r.choice(self.words[:3]) if r.random() < .3 else r.choice(self.words) for _ in range(n)]
        v = b""
        for x in w: v += (x if r.random() < .9 else b" " + x) + r.choice([b" ", b" ", b" ", b"\n", b"  ", b"\t"])
        return v if r.random() < .5 else v.strip()

    def newdoc(self, sch, fixed=None, nofields=False):
        r = self.rnd; z = self.sch[sch - 1]
        self.nid += 1
        idv = b"i%d" % self.nid
        fl = [("id", (1, 1), [idv])]
        pick = fixed if fixed is not None else {f: None for f in self.fields if r.random() < .7}
        for f, vals in pick.items():
            cfg = z["f"].get(f, z["def"])
            b = r.choice(BOOSTS) if self.boosts and r.random() < .3 else (1, 1)
            if vals is None:
                nv = r.choice([1, 1, 1, 1, 2, 3, 5 if cfg["ix"] else 0])
                vals = [self.value(f, cfg) for _ in range(nv)]
            fl.append((f, b, vals))
        if r.random() < .5: r.shuffle(fl)
        db = r.choice(BOOSTS) if self.boosts and r.random() < .3 else (1, 1)
        doc = dict(s=sch, bn=db[0], bd=db[1], f={}, raw=fl)
        for f, b, vals in fl:
            cfg = z["f"].get(f, z["def"])
            vs = []
            for v in vals:
                if cfg["ix"] in (3, 7): t = toks_ws(v)
                elif cfg["ix"] in (1, 5): t = [(cut(v), 0, len(v))]
                else: t = []
                vs.append(dict(x=atom(v), n=len(v), t=[list(q) for q in t]))
            doc["f"][f] = dict(bn=b[0], bd=b[1], v=vs)
        self.docs.append(doc)
        return len(self.docs)

    def docid(self, d): return next(v[0] for f, b, v in self.docs[d - 1]["raw"] if f == "id")
    def add(self, w, d=None, **kw):
        k = self.writers[w]
        if d is None: d = self.newdoc(self.stores[k]["sch"], **kw)
        self.stores[k]["docs"].append(d)
        x = self.docs[d - 1]
        self.c("add %d %r %d %s" % (w, x["bn"] / x["bd"], len(x["raw"]),
               " ".join("%s %r %d %s" % (hx(f), b[0] / b[1], len(v), " ".join(hx(z) for z in v)) for f, b, v in x["raw"])),
               op="add", a=w, d=d)
        return d

    # ---- handles
    def wconf(self):
        r = self.rnd
        return "%d %d %d %d %d %d %d %d" % (r.choice([2, 2, 3, 3, 5, 10]), r.choice([2, 2, 3, 4, 7, 50]), r.choice([2**31 - 1] * 5 + [3, 6]),
                r.choice([1, 2, 3, 4, 16, 128]), r.choice([2, 2, 3, 4, 8, 16]), r.randrange(2), r.choice([0] * 6 + [1, 60000]), self.mfl)
    def wopen(self, w, k, conf=None):
        self.c("wopen %d %d %s" % (w, k, conf or self.wconf()), op="wopen", a=w, k=k, mayerr=1)
        self.writers[w] = k
    def wclose(self, w): self.c("wclose %d" % w, op="wclose", a=w); self.writers.pop(w)
    def commit(self, w): self.c("commit %d" % w, op="commit", a=w)
    def optimize(self, w): self.c("optimize %d" % w, op="optimize", a=w)
    def ropen(self, r, k): self.c("ropen %d %d" % (r, k), op="ropen", a=r, k=k); self.readers[r] = list(self.stores[k]["docs"])
    def rclose(self, r): self.c("rclose %d" % r, op="rclose", a=r); self.readers.pop(r)
    def mropen(self, r, rs):
        self.c("mropen %d %s" % (r, " ".join(map(str, rs))), op="mropen", a=r, rs=list(rs)); self.readers[r] = sum((self.readers[x] for x in rs), [])
    def addreaders(self, w, rs):
        self.c("addreaders %d %s" % (w, " ".join(map(str, rs))), op="addreaders", a=w, rs=list(rs))
        k = self.writers[w]
        for x in rs: self.stores[k]["docs"] += self.readers[x]
    def dump(self, r): self.c("dump %d" % r, op="dump", a=r)
    def wdel(self, w, f, t):
        if isinstance(t, bytes): t = [t]; c = "wdel %d %s %s" % (w, hx(f), hx(t[0]))
        else: c = "wdels %d %s %s" % (w, hx(f), " ".join(map(hx, t)))
        self.extra.update(t); self.c(c, op="wdel", a=w, f=f, t=list(t))
    def rdel(self, r, d): self.c("rdel %d %s" % (r, hx(self.docid(d))), op="rdel", a=r, d=d, mayerr=1)
    def undel(self, r): self.c("undel %d" % r, op="undel", a=r, mayerr=1)
    def rcommit(self, r): self.c("rcommit %d" % r, op="rcommit", a=r)
    def rnorm(self, r, d, f, v): self.c("rnorm %d %s %s %d" % (r, hx(self.docid(d)), hx(f), v), op="rnorm", a=r, d=d, f=f, v=v, mayerr=1)
    def latest(self, r): self.c("latest %d" % r, op="latest", a=r)
    def locked(self, k): self.c("locked %d" % k, op="locked", k=k)

    # ---- observations
    def stored(self, r, d, m=None):
        m = self.rnd.randrange(3) if m is None else m
        self.c("stored %d %s %d" % (r, hx(self.docid(d)), m), op="stored", a=r, d=d, m=m)
    def bytes(self, r, d, f=None):
        rr = self.rnd
        z = self.sch[self.docs[d - 1]["s"] - 1]
        c = [(f, v) for f, b, v in self.docs[d - 1]["raw"] if z["f"].get(f, z["def"])["st"] and len(b" ".join(v)) > 0]
        if not c: return
        f, v = rr.choice(c); j = b" ".join(v)
        st = rr.choice([0, rr.randrange(len(j)), min(len(v[0]), len(j) - 1)])
        ln = rr.choice([1, len(j) - st, rr.randrange(1, len(j) - st + 1)])
        self.c("bytes %d %s %s %d %d %d" % (r, hx(self.docid(d)), hx(f), st, ln, rr.randrange(2)), op="bytes", a=r, d=d, want=atom(j[st:st + ln]), s=st, n=ln)
    def terms(self, r, f): self.c("terms %d %s" % (r, hx(f)), op="terms", a=r, f=f)
    def anyterm(self): return cut(self.anyterm_())
    def anyterm_(self):
        r = self.rnd; w = cut(r.choice(self.words)); x = r.random()
        if x < .5: return w
        if x < .6: return w + b"a"
        if x < .7: return w[:-1] or b"a"
        if x < .8: return w + b"\xff"
        if x < .85: return b"\xfe\xfe"
        if x < .9: return b"\x01"
        return bytes(r.choice(b"abz") for _ in range(r.randrange(1, 4)))
    def seek(self, r, f):
        t = self.anyterm(); n = self.rnd.choice([0, 1, 3, 30]); m = self.rnd.choice([0, 0, 1, 1, 2, 3])
        self.extra.add(t)
        self.c("seek %d %s %s %d %d" % (r, hx(f), hx(t), n, m), op="seek", a=r, f=f, ge=t, n=n, m=m)
    def skip(self, r, f, t=None):
        rr = self.rnd; t = t or self.anyterm(); self.extra.add(t)
        n = len(self.readers[r]) + 2; mv, at = [], 0
        for _ in range(rr.randrange(1, 8)):
            if rr.random() < .4: mv.append(-1); at += 1
            else: at = at + rr.choice([1, 1, 2, 3, 5, 9, 17, n]); mv.append(at)
        pos = rr.choice([0, 0, 1, 1, 2, 3])
        self.c("skip %d %s %s %d %s" % (r, hx(f), hx(t), pos, " ".join("n" if m < 0 else str(m) for m in mv)), op="skip", a=r, f=f, t=t, pos=pos, mv=mv)
    def bulk(self, r, f, t=None):
        t = t or self.anyterm(); self.extra.add(t)
        self.c("bulk %d %s %s %d" % (r, hx(f), hx(t), self.rnd.choice([1, 2, 3, 5, 100])), op="bulk", a=r, f=f, t=t)
    def df(self, r, f, t=None): t = t or self.anyterm(); self.extra.add(t); self.c("df %d %s %s" % (r, hx(f), hx(t)), op="df", a=r, f=f, t=t)
    def docwith(self, r, f, t): self.extra.add(t); self.c("docwith %d %s %s" % (r, hx(f), hx(t)), op="docwith", a=r, f=f, t=t)
    def tvs(self, r, d): self.c("tvs %d %s %s" % (r, hx(self.docid(d)), " ".join(hx(f) for f in self.fields + ["zz"])), op="tvs", a=r, d=d)
    def norms(self, r, f): self.c("norms %d %s" % (r, hx(f)), op="norms", a=r, f=f)

    # ---- finishing: number terms in byte order, number documents
    def done(self, **extra):
        voc = set(self.extra)
        for d in self.docs:
            for f in d["f"].values():
                for v in f["v"]: voc.update(t[0] for t in v["t"])
        self.rank = rank = {t: i + 1 for i, t in enumerate(sorted(voc))}
        num = lambda t: rank[t] if isinstance(t, bytes) else t
        docs = []
        for d in self.docs:
            docs.append(dict(s=d["s"], bn=d["bn"], bd=d["bd"],
                f={n: dict(bn=f["bn"], bd=f["bd"], v=[dict(x=v["x"], n=v["n"], t=[[rank[t[0]], t[1], t[2]] for t in v["t"]]) for v in f["v"]]) for n, f in d["f"].items()}))
        cmds = []
        for cmd, ev in self.cmds:
            ev = dict(ev)
            for k, v in ev.items():
                if isinstance(v, bytes): ev[k] = rank[v]
                elif isinstance(v, list): ev[k] = [num(x) for x in v]
                elif callable(v): ev[k] = v(self)
            cmds.append((cmd, ev))
        ids = {self.docid(i + 1).hex(): i + 1 for i in range(len(self.docs))}
        hr = {t.hex(): i for t, i in rank.items()}
        mk = lambda ep, res: conv(fv.events(ep, res), ids, hr)
        e = dict(id=self.id, cmds=cmds, sch=self.sch, docs=docs, mfl=self.mfl or 1000000, **extra)
        e["_mk"] = mk
        return e

def conv(evs, ids, hr):
    nm = lambda h: bytes.fromhex(h).decode("latin1")
    did = lambda h: ids.get(h, -1) if isinstance(h, str) else h
    def tv(t): return dict(t, t=[[hr.get(x[0], 0)] + x[1:] for x in t["t"]])
    for e in evs:
        op, r = e["op"], e.get("r")
        if op == "crash" or e.get("err"): e["r"] = {}; continue
        if op in ("ropen", "mropen", "dump", "undel"): r["slots"] = [did(x) for x in r["slots"]]
        elif op == "stored": r["f"] = [[nm(f), [atom(bytes.fromhex(v)) for v in vs]] for f, vs in r["f"]]
        elif op == "bytes": r["v"] = atom(bytes.fromhex(r["v"])) if r["v"] != "none" else "none"
        elif op == "terms": r["t"] = [[hr.get(x[0], 0)] + x[1:] for x in r["t"]]
        elif op == "seek": r["t"] = [hr.get(x, 0) for x in r["t"]]
        elif op == "docwith": r["v"] = did(r["v"])
        elif op == "tvs":
            r["all"] = [[nm(f), tv(t)] for f, t in r["all"]]
            r["one"] = [[nm(f), tv(t)] for f, t in r["one"]]
    return evs

def mk(ep, res): return ep["_mk"](ep, res)

# ------------------------------------------------------------------ histories
def observe(e, r, depth=1, docs=None, what=("stored", "terms", "tvs", "norms", "skip", "seek")):
    rr = e.rnd
    docs = docs if docs is not None else e.readers[r]
    fs = e.fields + (["id"] if rr.random() < .3 else [])
    sub = lambda l, n: rr.sample(l, min(n, len(l)))
    if "stored" in what:
        for d in sub(docs, 3 * depth): e.stored(r, d)
        for d in sub(docs, 2 * depth): e.bytes(r, d)
    if "terms" in what:
        for f in sub(fs, 2 * depth): e.terms(r, f)
    if "tvs" in what:
        for d in sub(docs, 3 * depth): e.tvs(r, d)
    if "norms" in what:
        for f in sub(fs, 2 * depth): e.norms(r, f)
    if "seek" in what:
        for _ in range(3 * depth): e.seek(r, rr.choice(fs))
    if "skip" in what:
        for _ in range(4 * depth): e.skip(r, rr.choice(fs), cut(rr.choice(e.words)) if rr.random() < .8 else None)
        for _ in range(depth): e.bulk(r, rr.choice(fs)); e.df(r, rr.choice(fs)); e.docwith(r, rr.choice(fs), cut(rr.choice(e.words)))

def normable(e, d):
    z = e.sch[e.docs[d - 1]["s"] - 1]
    return [f for f, b, v in e.docs[d - 1]["raw"] if z["f"].get(f, z["def"])["ix"] in (1, 3)]

def history(rnd, eid, steps=25, nstores=1, obs=("stored", "terms", "tvs", "norms", "skip", "seek"), depth=1, w_obs=.12, contention=.0,
            readers=True, norms=True, dels=True, merges=True, batch=6, **kw):
    """a random history over nstores stores, at most one intended writer per store, several readers"""
    e = Ep(rnd, eid, **kw)
    for k in range(1, nstores + 1): e.store(k)
    r = rnd
    mod = {}                       # store -> reader holding (intended) modifications
    def wr(k): return next((w for w, kk in e.writers.items() if kk == k), None)
    def newr():
        f = [x for x in range(1, 12) if x not in e.readers]
        return f[0] if f else None
    rk = {}                        # reader -> store
    def freew(k):
        w = wr(k)
        if w is not None: e.wclose(w)
    def freer(k):
        m = mod.pop(k, None)
        if m in e.readers: e.rcommit(m) if r.random() < .6 else (e.rclose(m), rk.pop(m))
    def ensurew(k):
        w = wr(k)
        if w is None:
            freer(k)
            w = next(x for x in range(1, 12) if x not in e.writers)
            e.wopen(w, k)
        return w
    for _ in range(steps):
        k = r.randrange(1, nstores + 1); x = r.random()
        if x < .40:
            w = ensurew(k)
            for _ in range(r.randrange(1, batch)): e.add(w)
        elif x < .48: e.commit(ensurew(k))
        elif x < .52 and merges: e.optimize(ensurew(k))
        elif x < .60 and dels:
            w = ensurew(k); f = r.choice(e.fields + ["id"] * 3)
            if f == "id" and e.stores[k]["docs"]:
                t = [e.docid(d) for d in r.sample(e.stores[k]["docs"], min(len(e.stores[k]["docs"]), r.randrange(1, 4)))]
            else: t = [e.anyterm() for _ in range(r.randrange(1, 3))]
            e.wdel(w, f, t[0] if r.random() < .5 else t)
        elif x < .64: freew(k)
        elif x < .72:
            n = newr()
            if n: e.ropen(n, k); rk[n] = k
        elif x < .76:
            rs = [q for q in e.readers if q in rk and q not in mod.values()]
            if rs: q = r.choice(rs); e.rclose(q); rk.pop(q)
        elif x < .84 and dels and readers:
            freew(k)
            rs = [q for q in e.readers if rk.get(q) == k]
            if rs and e.stores[k]["docs"]:
                q = mod.get(k) if mod.get(k) in rs else r.choice(rs)
                y = r.random()
                if y < .6 or not norms:
                    for d in r.sample(e.readers[q], min(len(e.readers[q]), r.randrange(1, 4))): e.rdel(q, d)
                elif y < .85:
                    for d in r.sample(e.readers[q], min(len(e.readers[q]), r.randrange(1, 4))):
                        fs = normable(e, d)
                        if fs: e.rnorm(q, d, r.choice(fs), r.randrange(1, 256))
                else: e.undel(q)
                mod[k] = q
                e.dump(q)
        elif x < .87: freer(k)
        elif x < .90: e.locked(k)
        else:
            if e.readers:
                q = r.choice(list(e.readers))
                if q in rk: e.latest(q)
                e.dump(q); observe(e, q, depth, what=obs)
    for k in range(1, nstores + 1):
        freer(k); freew(k)
        n = newr()
        if n is None:
            q = next(iter(rk)); e.rclose(q); rk.pop(q); n = q
        e.ropen(n, k); rk[n] = k
        observe(e, n, depth * 3, what=obs)
    for q in list(e.readers):
        if q in rk: e.latest(q)
        e.dump(q)
    return e

def from_model(h, eid, rnd, ram, obs, conf=None):
    """a history generated by IndexMC as commands; obs(e, step) adds observations after each step"""
    e = Ep(rnd, eid, fields=("a",), nwords=4, boosts=False)
    e.store(1, ram=ram, kind=dict(st=1, ix=3, tv=0, bn=1, bd=1))
    conf = conf or "10 10 2147483647 128 16 1 0"
    e.wopen(1, 1, conf); e.add(1); e.add(1); e.wclose(1)
    for st in h:
        o, a, d = st
        if o == "wopen": e.wopen(a, 1, conf)
        elif o == "wclose": e.c("wclose %d" % a, op="wclose", a=a)
        elif o == "add": e.writers[a] = 1; e.add(a)
        elif o == "wdel":
            e.extra.add(b"i%d" % d); e.c("wdel %d %s %s" % (a, hx("id"), hx(b"i%d" % d)), op="wdel", a=a, f="id", t=[b"i%d" % d])
        elif o in ("commit", "optimize"): e.c("%s %d" % (o, a), op=o, a=a)
        elif o == "ropen": e.c("ropen %d 1" % a, op="ropen", a=a, k=1)
        elif o == "rclose": e.c("rclose %d" % a, op="rclose", a=a)
        elif o == "rdel":
            e.c("rdel %d %s" % (a, hx(b"i%d" % d)), op="rdel", a=a, d=d, mayerr=1)
        elif o == "undel": e.undel(a)
        elif o == "rcommit": e.c("rcommit %d" % a, op="rcommit", a=a)
        obs(e, st)
    return e

def contend(rnd, eid, steps=40, **kw):
    """everybody tries everything: several writers and readers on one index, some through a second
    store object for the same directory (as another process would have)"""
    e = Ep(rnd, eid, **kw); r = rnd
    e.store(1)
    hs = [1]
    if not e.stores[1]["ram"]: hs = [1, 2]; e.c("store 2 fs s1/.", op="nop")
    alias = 2 in hs
    wid, rid = 0, 0
    for _ in range(steps):
        x = r.random(); h = r.choice(hs) if alias else 1
        if x < .16:
            w = r.randrange(1, 4)
            if w in e.writers: e.c("wclose %d" % w, op="wclose", a=w); e.writers.pop(w)
            else: e.c("wopen %d %d %s" % (w, h, e.wconf()), op="wopen", a=w, k=1, mayerr=1); e.writers[w] = 1
        elif x < .36:
            w = r.randrange(1, 4); e.writers.setdefault(w, 1)
            y = r.random()
            if y < .6: e.add(w)
            elif y < .75: e.commit(w)
            elif y < .85: e.optimize(w)
            else: e.wdel(w, "id", b"i%d" % r.randrange(1, 9))
        elif x < .48:
            q = r.randrange(1, 5)
            if q in e.readers: e.c("rclose %d" % q, op="rclose", a=q); e.readers.pop(q)
            else: e.c("ropen %d %d" % (q, h), op="ropen", a=q, k=1); e.readers[q] = []
        elif x < .70 and e.docs:
            q = r.randrange(1, 5); d = r.randrange(1, len(e.docs) + 1); y = r.random()
            if y < .7: e.rdel(q, d)
            elif y < .85: e.undel(q)
            else:
                f = normable(e, d)
                if f: e.rnorm(q, d, r.choice(f), r.randrange(256))
        elif x < .78: e.c("rcommit %d" % r.randrange(1, 5), op="rcommit", a=r.randrange(1, 5)); e.cmds[-1] = ("rcommit %d" % e.cmds[-1][1]["a"], e.cmds[-1][1])
        elif x < .88: e.c("locked %d" % h, op="locked", k=1)
        elif x < .92: e.c("latest %d" % r.randrange(1, 5), op="latest", a=0); a = int(e.cmds[-1][0].split()[1]); e.cmds[-1][1]["a"] = a
        elif x < .95 and alias:
            # close and reopen the second store object (readers and writers keep their own references)
            e.c("storeclose 2", op="nop"); e.c("locked 1", op="locked", k=1); e.c("store 2 fs s1/.", op="nop")
        else: e.dump(r.randrange(1, 5))
    for w in (1, 2, 3): e.c("wclose %d" % w, op="wclose", a=w)
    for q in (1, 2, 3, 4): e.c("dump %d" % q, op="dump", a=q)
    for q in (1, 2, 3, 4): e.c("rclose %d" % q, op="rclose", a=q)
    e.c("locked 1", op="locked", k=1)
    e.c("ropen 9 1", op="ropen", a=9, k=1)
    return e

def family(e, n):
    """n schemas over the same field definitions, differing in which fields they have and their numbering"""
    r = e.rnd; base = e.schema(); z = e.sch[base - 1]
    full = {f: z["f"].get(f, z["def"]) for f in e.fields}
    out = []
    for i in range(n):
        fs = [f for f in e.fields if r.random() < .75]; names = fs + ["id"]; r.shuffle(names)
        e.sch.append(dict(f={x: (full[x] if x != "id" else z["f"]["id"]) for x in names}, **{"def": z["def"]}))
        out.append((len(e.sch), fs))
    return out

def multi(rnd, eid, steps=12, obs=("stored", "terms", "tvs", "norms", "skip", "seek"), depth=1, nst=None, absorb=True, **kw):
    """several indexes read through a multi-reader, and merged into another index"""
    e = Ep(rnd, eid, **kw); r = rnd
    nst = nst or r.choice([1, 2, 2, 3, 3, 5]); fam = family(e, nst + 1)
    if r.random() < .3: fam = [fam[0]] * (nst + 1)
    rk = []
    for k in range(1, nst + 2):
        s, fs = fam[k - 1]
        e.store(k, sch=s); e.wopen(k, k)
        for _ in range(r.randrange(9) if nst < 4 or r.random() < .45 else 0):      # empty ones next to one another
            e.add(k, fixed={f: None for f in fs if r.random() < .8})
            if r.random() < .15: e.commit(k)
        if r.random() < .5 and e.stores[k]["docs"]:
            e.wdel(k, "id", [e.docid(d) for d in r.sample(e.stores[k]["docs"], r.randrange(1, len(e.stores[k]["docs"]) + 1))][:3])
        if r.random() < .2: e.optimize(k)
        if k <= nst:
            e.wclose(k); e.ropen(k, k); rk.append(k)
    order = rk[:]; r.shuffle(order)
    M = 10
    if r.random() < .6:
        for k in rk:
            for d in r.sample(e.readers[k], min(len(e.readers[k]), r.choice([0, 1, 2]))): e.rdel(k, d)
            for d in r.sample(e.readers[k], min(len(e.readers[k]), r.choice([0, 1, 2]))):
                f = normable(e, d)
                if f: e.rnorm(k, d, r.choice(f), r.randrange(1, 256))
    e.mropen(M, order)
    observe(e, M, depth * 2, what=obs)
    if r.random() < .6:
        for _ in range(r.randrange(1, 4)):
            if not e.readers[M]: break
            d = r.choice(e.readers[M])
            if r.random() < .6: e.rdel(M, d)
            else:
                f = normable(e, d)
                if f: e.norms(M, f[0]); e.rnorm(M, d, r.choice(f), r.randrange(1, 256)); e.norms(M, f[0])
        e.dump(M); observe(e, M, depth, what=obs)
        if r.random() < .5: e.rcommit(M)
    if absorb:
        T = nst + 1
        use = [M] if r.random() < .3 else order[:r.randrange(1, len(order) + 1)]
        e.addreaders(T, use)
        if r.random() < .4:
            e.add(T, fixed={f: None for f in fam[T - 1][1] if r.random() < .8})
        if r.random() < .4: e.optimize(T)
        if r.random() < .3: e.commit(T)
        e.wclose(T); e.ropen(11, T)
        observe(e, 11, depth * 3, what=obs)
        if r.random() < .5:
            e.wopen(T, T); e.optimize(T); e.wclose(T); e.rclose(11); e.ropen(11, T); observe(e, 11, depth * 2, what=obs)
    e.rclose(M)
    for k in rk: e.rclose(k)
    for k in rk:
        e.ropen(k, k); e.dump(k); observe(e, k, depth, what=obs)
    return e
