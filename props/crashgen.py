"""Histories for the crash, fault and race properties: operations run under harness/crashdrv.c, judged by CrashTrace."""
import fv, random
from props import idxgen as G, idxcommon as X
from fv import hx
WRAP = ["open", "open64", "creat", "creat64", "write", "read", "close", "rename", "remove", "unlink", "opendir", "frt_micro_sleep"]
def build(variant="plain"): return fv.build_driver("crashdrv", variant=variant, extra=["-Wl," + ",".join("--wrap=" + w for w in WRAP)])
ZZ = 999999
FOREIGN = [("notes.txt", b"hello"), ("_x.txt", b"1"), ("prog.f90", b"end"), ("x.del", b""), ("backup.cfs", b"zz"), ("data.frq", b"q"), ("_readme", b"r"),
           ("a.gen", b"g"), ("core", b"c"), ("my_segments", b"s"), ("list.s1", b"9"), ("x.tis", b"t"), ("_.txt.bak", b"b"), (".hidden", b"h"), ("f1", b"f"),
           ("segments.bak", b"sb"), ("segmentsold", b"so"), ("_" + "a" * 150 + ".frq", b"long"), ("_1.frq.orig", b"o"), ("segments.1", b"s1"), ("ferret.lck.txt", b"l")]

class Tab:
    def __init__(self, ids): self.t, self.ix, self.ids = [], {}, ids
    def put(self, c, err):
        key = (err, tuple(map(tuple, c)))
        if key not in self.ix:
            self.t.append({"ids": [self.ids(x[0]) for x in c], "sigs": [x[1] for x in c], "err": err}); self.ix[key] = len(self.t)
        return self.ix[key]
def point(p, T):
    q = {"c": T.put(p["c"], p["ce"]), "how": p["how"]}
    if p["how"] >= 0:
        q.update(ge=p["ge"], after=T.put(p["after"], p["aftere"]), open=T.put(p["open"], p["opene"]), files=p["files"], need=p["need"])
    return q
def conv(evs, ids):
    did = lambda h: ids.get(h, -1) if isinstance(h, str) else h
    pos = None
    for e in evs:
        if e["op"] == "crash": continue
        r = e.pop("r") or {}
        if e["err"]: continue
        if e["op"] == "cr":
            T = Tab(did); pts = []
            for p in r["pts"]:
                q = point(p, T); q["fg"] = ["%s=%s" % tuple(x) for x in p["foreign"]]; q["at"] = p["at"] + p["k"]
                pts.append(q)
            e["n"] = len(pts)
            # consecutive points without a difference tell nothing more
            e["pts"] = [q for i, q in enumerate(pts) if i in (0, len(pts) - 1) or q["how"] >= 0 or any(q[k] != pts[i - 1].get(k) for k in ("c", "fg"))]
            e["T"] = T.t; e["oe"] = r["oe"]
        elif e["op"] == "crashat":
            T = Tab(did); e["c"] = T.put(r["c"], r["ce"]); e["T"] = T.t; e["oe"] = r["oe"]
        elif e["op"] == "fl":
            T = Tab(did); e["flt"] = []
            for p in r["flt"]:
                if "dead" in p: e["flt"].append({"dead": p["dead"], "n": p["n"]}); continue
                q = point(p, T); q.update(oe=p["oe"], kind=p["kind"], name=p["name"], cl=p["cl"])
                if p["cl"]: q["cle"] = p["cle"]; q["f"] = T.put(p["f"], p["fe"])
                e["flt"].append(q)
            e["c"] = T.put(r["c"], r["ce"]); e["T"] = T.t; e["oe"] = r["oe"]; e["n"] = len(e["flt"]); e["r"] = {"dead": [p["dead"] for p in r["flt"] if "dead" in p]}
        elif e["op"] == "jend": pos = r
        elif e["op"] == "race":
            T = Tab(did); m = [T.put(c["c"], c["ce"]) for c in pos["cs"]]
            e["pos"] = [m[i - 1] for i in pos["pos"]]
            e["o"] = [{"s": x[0], "t": x[1], "err": x[2], "c": T.put(x[3], "")} for x in r["o"]]; e["T"] = T.t; e["n"] = len(e["o"])
        elif e["op"] in ("ls", "foreign"): e["fg"] = ["%s=%s" % tuple(x) for x in r.get("foreign", [])]
        elif e["op"] in ("ropen", "undel"): e["slots"] = [did(x) for x in r["slots"]]
    return evs

class Ep(G.Ep):
    def under(self, pre, op, k, f, **kw):
        """run the command f issues under pre"""
        f(); cmd, ev = self.cmds.pop()
        ev = dict(ev)
        if ev["op"] == "wdel": ev["d"] = [self.idno[x] for x in ev.pop("t")]
        self.c("%s %s" % (pre, cmd), op=op, inner=ev, **kw)
    def plain(self, f):
        f(); cmd, ev = self.cmds.pop(); ev = dict(ev)
        if ev["op"] == "wdel": ev["d"] = [self.idno[x] for x in ev.pop("t")]
        self.c(cmd, **ev)
    @property
    def idno(self): return {self.docid(i + 1): i + 1 for i in range(len(self.docs))}
    def finish(self, asp):
        ids = {self.docid(i + 1).hex(): i + 1 for i in range(len(self.docs))}; ids["7a7a"] = ZZ
        return {"id": self.id, "asp": asp, "cmds": self.cmds, "_mk": lambda ep, res: conv(fv.events(ep, res), ids)}

def history(rnd, eid, kind, asp, steps=9, dens=.5, cont=3, step=3, foreign=0, race=(6, 12), close=(0,), stop=0):
    """kind cr: after every change; fl: with failing calls; race: with readers opening"""
    e = Ep(rnd, eid, fields=("a", "b", "c")[:rnd.randrange(1, 4)], nwords=6, boosts=rnd.random() < .3, maxtok=4)
    r = rnd
    if foreign:
        e.c("store 1 fs s1", op="store", k=1)
        for n, v in r.sample(FOREIGN, foreign): e.c("foreign 1 %s %s" % (n, hx(v)), op="foreign", k=1)
        s = e.schema(); e.stores[1] = dict(sch=s, ram=False, docs=[], name="s1"); e.create(1, s); e.c("ls 1", op="ls", k=1)
    else: e.store(1, ram=False)
    src = None
    if r.random() < .3:                     # another index to copy
        e.store(2, sch=e.stores[1]["sch"], ram=r.random() < .5)
        e.plain(lambda: e.wopen(2, 2, e.wconf()))
        for _ in range(r.randrange(1, 5)): e.add(2)
        if r.random() < .4: e.plain(lambda: e.wdel(2, "id", [e.docid(r.choice(e.stores[2]["docs"]))]))
        e.wclose(2); e.ropen(2, 2); src = 2
    if kind == "fl" or r.random() < .8: e.maxd = 0
    w = rd = 0
    def act(f, name):
        nonlocal w, rd
        if stop and name != "wopen" and r.random() < stop:
            e.under("crashat 1 %d" % r.randrange(1, 10 ** 6), "crashat", 1, f); w = rd = 0; e.writers.pop(1, None); return True
        if kind == "cr" and r.random() < dens: e.under("cr 1 %d %d" % (cont, r.randrange(1, 10 ** 6)), "cr", 1, f)
        elif kind == "fl" and name not in ("wopen",) and r.random() < dens:
            m = r.choice([0, 0, 0, 1, 2]); cl = r.choice(close) if name not in ("wclose", "rcommit", "rclose") else 0
            e.under("fl 1 %d %d %d %d" % (m, step, r.randrange(1, 10 ** 6), cl), "fl", 1, f)
        else: e.plain(f)
    conf = e.wconf(); j = False
    def jin():
        nonlocal j
        if kind == "race" and not j: e.c("jstart 1", op="jstart"); j = True
    for n in range(steps):
        docs = e.stores[1]["docs"]
        if kind == "race" and n == steps // 3: jin()
        if not w and not rd:
            if docs and r.random() < .35: e.ropen(1, 1); rd = 1
            else: w = 1; act(lambda: e.wopen(1, 1, conf if r.random() < .7 else e.wconf()), "wopen")
            continue
        x = r.random()
        if w:
            if x < .45:
                def ad(): e.add(1)
                act(ad, "add")
            elif x < .57: act(lambda: e.commit(1), "commit")
            elif x < .66: act(lambda: e.optimize(1), "optimize")
            elif x < .8 and docs:
                t = [e.docid(d) for d in r.sample(docs, min(len(docs), r.choice([1, 1, 2, 3])))]
                act(lambda: e.wdel(1, "id", t[0] if len(t) == 1 else t), "wdel")
            elif x < .86 and src: act(lambda: e.addreaders(1, [2]), "addreaders"); src = None
            else: act(lambda: e.wclose(1), "wclose"); w = 0
        else:
            if x < .35: e.rdel(1, r.choice(docs))
            elif x < .5:
                d = r.choice(docs); ok = G.normable(e, d)
                if ok: e.rnorm(1, d, r.choice(ok), r.randrange(1, 250))
            elif x < .58: e.undel(1)
            elif x < .8: act(lambda: e.rcommit(1), "rcommit")
            else: act(lambda: e.rclose(1), "rclose"); rd = 0
    if w: act(lambda: e.wclose(1), "wclose")
    if rd: act(lambda: e.rclose(1), "rclose")
    if kind == "race":
        jin(); e.c("jend", op="jend"); e.c("race %d %d %d" % (r.randrange(1, 10 ** 6), race[0], race[1]), op="race")
    return e.finish(asp)
