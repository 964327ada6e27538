import fv, random
from props import idxcommon as X
from fv import hx
# strings of equal hash (37 * h + c): aZ ~ b5; and others
SAME = ["aZ", "b5"]
def strs(r):
    k = r.randrange(1, 4); s = [""]
    for _ in range(k): s = [a + b for a in s for b in SAME]
    s += ["", "x", "xx", "xxx", "word", "a", "b"] + ["k%d" % i for i in range(r.choice([0, 5, 40]))]
    return s
def ints(r): return [str(x) for x in [0, 1, 8, 16, 64, 1024, 2 ** 20, 5, 13, 21, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 7, 15] + list(range(100, 100 + r.choice([0, 10, 60])))]
def c(cmd, **ev): return (cmd, ev)
class T:
    def __init__(self, r): self.r, self.n = r, 0
    def nv(self): self.n += 1; return self.n
def key(k, kind): return k if kind == 1 else (k.encode().hex())
def hcmd(op, a, k, kind, t=None):
    ev = dict(op=op, a=a, k=key(k, kind), int=int(kind == 1)); tok = k if kind == 1 else hx(k)
    if op in ("hset", "hsets"): v = t.nv(); ev["v"] = v; return c("%s %d %s %d" % (op, a, tok, v), **ev)
    return c("%s %d %s" % (op, a, tok), **ev)
def hashes(r, eid):
    t = T(r); kind = [r.choice([0, 0, 1, 1, 2, 3])] * 4; cm = []; live = [0]
    cm.append(c("hnew 0 %d" % kind[0], op="hnew", a=0))
    ks = ints(r) if kind[0] == 1 else strs(r); ks = r.sample(ks, min(len(ks), r.choice([4, 8, 30, 100])))
    for _ in range(r.choice([20, 60, 200])):
        a = r.choice(live); k = r.choice(ks); x = r.random()
        if x < .35: cm.append(hcmd("hset", a, k, kind[0], t))
        elif x < .40: cm.append(hcmd("hsets", a, k, kind[0], t))
        elif x < .42: cm.append(hcmd("hsame", a, k, kind[0], t))
        elif x < .62: cm.append(hcmd(r.choice(["hdel", "hrem"]), a, k, kind[0]))
        elif x < .90: cm.append(hcmd(r.choice(["hget", "hhas"]), a, k, kind[0]))
        elif x < .95: cm.append(c("heach %d" % a, op="heach", a=a, int=int(kind[0] == 1)))
        elif x < .965 and len(live) < 4:
            b = [i for i in range(4) if i not in live][0]; cm.append(c("hclone %d %d" % (b, a), op="hclone", a=b, b=a)); live.append(b)
        elif x < .975: cm.append(c("hclear %d" % a, op="hclear", a=a, int=int(kind[0] == 1)))
        elif x < .985 and len(live) > 1: live.remove(a); cm.append(c("hdestroy %d" % a, op="hdestroy", a=a, int=int(kind[0] == 1)))
    for a in live:
        cm.append(c("heach %d" % a, op="heach", a=a, int=int(kind[0] == 1)))
        cm += [hcmd("hget", a, k, kind[0]) for k in ks]
        cm.append(c("hdestroy %d" % a, op="hdestroy", a=a, int=int(kind[0] == 1)))
    return {"id": eid, "cmds": cm}
def sets(r, eid):
    kind = r.choice([0, 0, 2, 3]); cm = []; live = [0, 1]; ks = strs(r); ks = r.sample(ks, min(len(ks), r.choice([3, 6, 20, 60])))
    cm += [c("snew %d %d" % (a, kind), op="snew", a=a) for a in live]
    for _ in range(r.choice([15, 50, 150])):
        a = r.choice(live); k = r.choice(ks); x = r.random()
        o = "sadd" if x < .35 else "sadds" if x < .42 else "saddsame" if x < .46 else "sdel" if x < .58 else "srem" if x < .68 else "shas" if x < .75 else "sorig" if x < .82 else None
        if o: cm.append(c("%s %d %s" % (o, a, hx(k)), op=o, a=a, k=key(k, 0)))
        elif x < .94: cm.append(c("sdump %d" % a, op="sdump", a=a))
        elif x < .96 and len(live) == 2: b = 1 - a; cm.append(c("smerge %d %d" % (a, b), op="smerge", a=a, b=b)); cm.append(c("snew %d %d" % (b, kind), op="snew", a=b))
        elif x < .97: cm.append(c("sclear %d" % a, op="sclear", a=a))
    for a in live: cm += [c("sdump %d" % a, op="sdump", a=a)] + [c("shas %d %s" % (a, hx(k)), op="shas", a=a, k=key(k, 0)) for k in ks] + [c("sdestroy %d" % a, op="sdestroy", a=a)]
    return {"id": eid, "cmds": cm}
def queues(r, eid):
    t = T(r); capa = r.choice([0, 1, 2, 3, 5, 10, 127, 130]); cm = [c("pnew 0 %d" % capa, op="pnew", a=0, n=capa)]; live = [0]; span = r.choice([2, 5, 50, 1000]); push = r.random() < .3
    for _ in range(r.choice([20, 60, 300])):
        a = r.choice(live); x = r.random()
        if x < .6:
            k, v = r.randrange(span), t.nv()
            if push and r.random() < .5: cm.append(c("ppush %d %d %d" % (a, v, k), op="ppush", a=a, k=k, v=v))
            else: cm.append(c("pins %d %d %d" % (a, v, k), op="pins", a=a, k=k, v=v))
        elif x < .72: cm.append(c("ppop %d" % a, op="ppop", a=a))
        elif x < .8: cm.append(c("ptop %d" % a, op="ptop", a=a))
        elif x < .88: k = r.randrange(span); cm.append(c("pdown %d %d" % (a, k), op="pdown", a=a, k=k))
        elif x < .95: cm.append(c("psize %d" % a, op="psize", a=a))
        elif x < .97 and len(live) < 3: b = len(live); live.append(b); cm.append(c("pclone %d %d" % (b, a), op="pclone", a=b, b=a))
        elif x < .98: cm.append(c("pclear %d" % a, op="pclear", a=a))
    for a in live:
        cm += [c("ppop %d" % a, op="ppop", a=a) for _ in range(r.choice([3, 20, 320]))] + [c("psize %d" % a, op="psize", a=a), c("pdestroy %d" % a, op="pdestroy", a=a)]
    return {"id": eid, "cmds": cm}
def arrays(r, eid):
    t = T(r); n = 0; cap = r.choice([0, 0, 1, 3, 16]); cm = [c("anew 0 %d" % cap, op="anew", a=0)]
    for _ in range(r.choice([15, 50, 120])):
        x = r.random(); i = r.choice([0, 0, n - 1, n, r.randrange(n + 1), -1, -n, r.randrange(-n - 1, n + 10)])
        if x < .22: cm.append(c("apush 0 %d" % t.nv(), op="apush", a=0, v=t.n)); n += 1
        elif x < .3: cm.append(c("aunshift 0 %d" % t.nv(), op="aunshift", a=0, v=t.n)); n += 1
        elif x < .38: cm.append(c("apop 0", op="apop", a=0)); n = max(0, n - 1)
        elif x < .46: cm.append(c("ashift 0", op="ashift", a=0)); n = max(0, n - 1)
        elif x < .6: cm.append(c("aset 0 %d %d" % (i, t.nv()), op="aset", a=0, i=i, v=t.n, mayerr=1)); n = max(n, i + 1)
        elif x < .7: cm.append(c("aget 0 %d" % i, op="aget", a=0, i=i))
        elif x < .8: cm.append(c("aremove 0 %d" % i, op="aremove", a=0, i=i)); n -= 0 <= i < n
        elif x < .85 and 0 <= i < n: cm.append(c("adelete 0 %d" % i, op="adelete", a=0, i=i)); n -= 1
        elif x < .89: i = max(0, i) + r.randrange(6); cm.append(c("aresize 0 %d" % i, op="aresize", a=0, i=i)); n = max(n, i + 1)
        elif x < .91: cm.append(c("agrow 0", op="agrow", a=0)); n += 1
        else: cm.append(c("adump 0", op="adump", a=0))
    cm += [c("adump 0", op="adump", a=0), c("adestroy 0", op="adestroy", a=0)]
    return {"id": eid, "cmds": cm}
HK = [["aZ", "b5", "x", "y", "a", "k"], ["0", "8", "16", "1", str(2 ** 64 - 1), "5"]]
def model(n, h, what):
    t = T(None)
    if what == "hash":
        kind = n % 2; ks = HK[kind]; cm = [c("hnew 0 %d" % kind, op="hnew", a=0)] + [hcmd(o, 0, ks[k], kind, t) for o, k in h]
        cm += [hcmd("hget", 0, k, kind) for k in ks] + [c("heach 0", op="heach", a=0, int=kind), c("hclone 1 0", op="hclone", a=1, b=0)]
        cm += [hcmd("hset", 0, k, kind, t) for k in ks] + [hcmd("hget", a, k, kind) for a in (0, 1) for k in ks] + [c("hdestroy %d" % a, op="hdestroy", a=a, int=kind) for a in (0, 1)]
    elif what == "queue":
        cm = [c("pnew 0 3", op="pnew", a=0, n=3)]
        for o, k in h:
            if o == "pins": v = t.nv(); cm.append(c("pins 0 %d %d" % (v, k), op="pins", a=0, k=k, v=v))
            elif o == "pdown": cm.append(c("pdown 0 %d" % k, op="pdown", a=0, k=k))
            else: cm.append(c("ppop 0", op="ppop", a=0))
        cm += [c("psize 0", op="psize", a=0)] + [c("ppop 0", op="ppop", a=0)] * 4 + [c("pdestroy 0", op="pdestroy", a=0)]
    else:
        cm = [c("anew 0 %d" % (n % 3), op="anew", a=0)]
        for o, k in h:
            if o == "aset": cm.append(c("aset 0 %d %d" % (k, t.nv()), op="aset", a=0, i=k, v=t.n, mayerr=1))
            elif o == "aremove": cm.append(c("aremove 0 %d" % k, op="aremove", a=0, i=k))
            elif o in ("apush", "aunshift"): cm.append(c("%s 0 %d" % (o, t.nv()), op=o, a=0, v=t.n))
            else: cm.append(c("%s 0" % o, op=o, a=0))
        cm += [c("adump 0", op="adump", a=0), c("aset 0 9 999", op="aset", a=0, i=9, v=999, mayerr=1), c("adump 0", op="adump", a=0), c("adestroy 0", op="adestroy", a=0)]
    return {"id": "gen-%s%d" % (what, n), "cmds": cm}
def run(pid):
    ck = fv.Check(pid)
    exe = fv.build_driver("colldrv")
    eps = []
    for w in ("hash", "queue", "array"):
        hs = sorted(set(tuple(map(tuple, h)) for h in ck.generate("CollMC", cfg="CollMC_%s.cfg" % w)))
        if not fv.THOROUGH and len(hs) > 4000: hs = random.Random(fv.SEED).sample(hs, 4000)
        eps += [model(n, h, w) for n, h in enumerate(hs)]
    for tag, f, n in (("h", hashes, 500), ("s", sets, 400), ("q", queues, 300), ("a", arrays, 600)):
        eps += [f(r, "%s%d" % (tag, i)) for i, r in X.rnds(pid, tag, X.q(n, n * 12))]
    for a in range(0, len(eps), 4000): ck.conform("CollTrace", exe, eps[a:a + 4000])
    return ck.finish()
NOTE = ("Coll.tla: tables as functions, sets as sequences without repetition, bounded queues as sets, arrays as sequences. Short histories over colliding keys are enumerated by TLC (CollMC) "
        "with their laws checked, and replayed on the real collections together with long random ones (growth, full hash collisions, re-insertion after deletion, clones); TLC judges every result and which "
        "values and keys were freed.")
