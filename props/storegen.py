"""Histories of store and stream calls for StoreTrace; the mirror kept here only serves to choose sensible calls."""
import fv
from fv import hx
IX = ["_0.frq", "_1.cfs", "_2.tis", "segments", "segments_1", "_0_1.del", "_1.fdt"]
OTHER = ["notes", "x", "data.bin", "Zed"]
LOCK = "ferret-b.lck"
def groups(v):
    g = []
    while v: g.append(v & 127); v >>= 7
    return g
class Ep:
    def __init__(self, r, eid): self.r, self.id, self.cmds = r, eid, []; self.ino, self.dir, self.kind, self.o, self.i, self.n, self.pack, self.rd, self.items = {}, {}, {}, {}, {}, 0, {}, {}, {}
    def c(self, cmd, **ev): self.cmds.append((cmd, ev))
    def done(self): return {"id": self.id, "ixf": IX, "cmds": self.cmds}
    def new(self, k, name, b=b""): self.n += 1; self.ino[self.n] = bytearray(b); self.items[self.n] = []; self.dir[k][name] = self.n; return self.n
    def store(self, k, kind): self.kind[k] = kind; self.dir[k] = {}; self.c("st %d %s s%d" % (k, kind, k), op="st", a=k, kind=kind, fresh=1)
    def files(self, k, lock=0): return [x for x in self.dir[k] if x != LOCK and (k, x) not in self.pack]
    def writing(self, ino): return any(x[0] == ino for x in self.o.values())
    def reading(self, ino): return any(x[0] == ino for x in self.i.values())
    # -- output
    def out(self, a, k, name):
        ino = self.dir[k].get(name)
        if ino: self.ino[ino] = bytearray(); self.items[ino] = []
        else: ino = self.new(k, name)
        self.o[a] = [ino, 0]; self.c("out %d %d %s" % (a, k, hx(name)), op="out", a=a, b=k, name=name)
    def buf(self, a): self.n += 1; self.ino[self.n] = bytearray(); self.items[self.n] = []; self.o[a] = [self.n, 0]; self.c("buf %d" % a, op="buf", a=a)
    def put(self, a, d, kind):
        ino, p = self.o[a]; b = self.ino[ino]; b[p:p + len(d)] = d
        self.items[ino] = [x for x in self.items[ino] if x[0] + x[2] <= p or x[0] >= p + len(d)] + [(p, kind, len(d))]; self.o[a][1] = p + len(d)
    def w(self, a, kind, val=None, size=None):
        r = self.r
        if kind == "b": v = [r.randrange(256)]; arg = hx(bytes(v)); d = v
        elif kind == "bs":
            n = size if size is not None else r.choice([0, 1, 2, 7, 100, 511, 1000, 1013, 1014, 1015, 1022, 1023, 1024, 1025, 1034, 2047, 2048, 2049, 3000]); x = r.randrange(256); s = r.choice([1, 3, 7, 129])
            v = [(x + s * i) % 256 for i in range(n)]; arg = hx(bytes(v)); d = v
        elif kind == "str":
            n = size if size is not None else r.choice([0, 1, 5, 20, 126, 127, 128, 129, 1000, 1023, 1024, 1100]); x = r.randrange(200)
            v = [1 + (x + i) % 255 for i in range(n)]; arg = hx(bytes(v)); d = enc(groups(n)) + v
        elif kind in ("i32", "u32", "i64", "u64"):
            w = 4 if kind[1:] == "32" else 8; u = val if val is not None else pick(r, w * 8)
            v = list(u.to_bytes(w, "big")); d = v; arg = str(u - (1 << 8 * w) if kind[0] == "i" and u >> (8 * w - 1) else u)
        else:
            u = val if val is not None else pick(r, {"vint": 32, "voff": 62, "vll": 64}[kind]); v = groups(u); d = enc(v); arg = str(u)
        self.c("w %d %s %s" % (a, kind, arg), op="w", a=a, kind=kind, v=v); self.put(a, bytes(d), kind)
    def oseek(self, a, p): self.o[a][1] = p; self.c("oseek %d %d" % (a, p), op="oseek", a=a, p=p)
    def opos(self, a): self.c("opos %d" % a, op="opos", a=a)
    def oclose(self, a): self.o.pop(a); self.c("oclose %d" % a, op="oclose", a=a)
    # -- input
    def open(self, a, k, name, may=0):
        if name in self.dir[k]: self.i[a] = [self.dir[k][name], 0]
        self.c("in %d %d %s" % (a, k, hx(name)), op="in", a=a, b=k, name=name, mayerr=1)
    def iseek(self, a, p): self.i[a][1] = p; self.c("iseek %d %d" % (a, p), op="iseek", a=a, p=p)
    def read(self, a, kind, n=0):
        if self.i[a][1] is None: self.iseek(a, 0)
        ino, p = self.i[a]; b = self.ino[ino]
        if kind in ("b", "bs"): q = p + n if p + n <= len(b) else None
        elif kind in ("i32", "u32"): q = p + 4 if p + 4 <= len(b) else None
        elif kind in ("i64", "u64"): q = p + 8 if p + 8 <= len(b) else None
        else:
            q = p
            while q is not None and q < len(b) and b[q] > 127: q += 1
            q = q + 1 if q < len(b) else None
            if kind in ("str", "strs") and q is not None:
                n = sum((x & 127) << 7 * i for i, x in enumerate(b[p:q])); q = q + n if q + n <= len(b) else None
        self.i[a][1] = q
        self.c("r %d %s %d" % (a, kind, n), op="r", a=a, kind=kind, n=n, mayerr=1)
    def size(self, a): return len(self.ino[self.i[a][0]])
    def iclose(self, a): self.i.pop(a); self.c("iclose %d" % a, op="iclose", a=a)
    def ilen(self, a): self.c("ilen %d" % a, op="ilen", a=a)
    def ipos(self, a): self.c("ipos %d" % a, op="ipos", a=a)
    def whole(self, a, k, name, how=0):
        """read a file from end to end"""
        self.open(a, k, name); n = self.size(a); self.ilen(a); self.c("length %d %s" % (k, hx(name)), op="length", a=k, name=name, mayerr=1)
        if how == 0: self.read(a, "bs", n)
        elif how == 1: self.read(a, "b", n)
        else:
            left = n
            while left > 0: m = min(left, self.r.choice([1, 3, 100, 500, 1000, 1023, 1024, 1025, 1500])); self.read(a, self.r.choice(["b", "bs"]), m); left -= m
        self.ipos(a); self.read(a, self.r.choice(["b", "bs"]), 1); self.iclose(a)
def enc(g): return [x | 128 for x in g[:-1]] + [g[-1]] if g else [0]
def pick(r, bits):
    x = r.random()
    if x < .3: return r.choice([0, 1, 127, 128, 255, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28 - 1, 2 ** 28, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
    return r.getrandbits(r.randrange(1, bits + 1)) if x < .9 else (1 << bits) - 1
KINDS = ["b", "b", "b", "bs", "bs", "bs", "str", "str", "i32", "u32", "i64", "u64", "vint", "vint", "vint", "voff", "vll"]
RK = ["b", "bs", "bs", "i32", "u32", "i64", "u64", "vint", "voff", "vll"]
def history(r, eid, steps):
    e = Ep(r, eid)
    for k in range(r.randrange(1, 3)): e.store(k, r.choice(["ram", "fs"]))
    names = r.sample(IX, 3) + r.sample(OTHER, 2)
    sid = len(e.kind)
    for _ in range(steps):
        k = r.choice([x for x in e.kind if e.kind[x] != "cmpd"]); x = r.random(); d = e.dir[k]
        free = [a for a in range(6) if a not in e.o]; ifree = [a for a in range(8) if a not in e.i]
        if x < .12 and free:
            n = r.choice(names)
            if (k, n) in e.pack or n in d and (e.writing(d[n]) or e.reading(d[n])): continue
            if r.random() < .1: e.buf(free[0])
            else: e.out(free[0], k, n)
        elif x < .42 and e.o:
            a = r.choice(list(e.o)); big = len(e.ino[e.o[a][0]]) > 5000
            if r.random() < .3 and not big:                    # fill up to a boundary first
                p = e.o[a][1]; e.w(a, "bs", size=(r.choice([1023, 1022, 1020, 1015, 1024]) - p) % 1024)
            for _ in range(r.randrange(1, 6)): e.w(a, r.choice([q for q in KINDS if not (big and q in ("bs", "str"))]))
        elif x < .5 and e.o:
            a = r.choice(list(e.o)); L = len(e.ino[e.o[a][0]]); e.oseek(a, r.choice([0, L, r.randrange(L + 1), min(L, 1024)])); e.opos(a)
        elif x < .56 and e.o: e.opos(r.choice(list(e.o)))
        elif x < .64 and e.o: e.oclose(r.choice(list(e.o)))
        elif x < .70 and ifree:
            k = r.choice(list(e.kind)); n = r.choice(names)
            if (k, n) in e.pack or n in e.dir[k] and e.writing(e.dir[k][n]): continue
            if n not in e.dir[k]: e.open(ifree[0], k, n)
            elif r.random() < .5: e.whole(ifree[0], k, n, r.randrange(3))
            else: e.open(ifree[0], k, n)
        elif x < .85 and e.i:
            a = r.choice(list(e.i)); ino = e.i[a][0]; L = e.size(a)
            for _ in range(r.randrange(1, 6)):
                y = r.random(); its = e.items[ino]
                if y < .15: e.iseek(a, r.choice([0, L, r.randrange(L + 1), min(L, 1024), max(0, L - 3), L + 5]))
                elif y < .45 and its:
                    p, kd, n = r.choice(its); e.iseek(a, p); e.read(a, r.choice(["str", "strs"]) if kd == "str" else "bs" if kd == "x" else kd, n)
                elif y < .9:
                    if e.i[a][1] is None: e.iseek(a, r.randrange(L + 1))
                    kd = r.choice(RK); e.read(a, kd, r.choice([0, 1, 2, 10, 100, 1000, 1023, 1024, 1025, 2000]))
                else: e.ipos(a); e.ilen(a)
        elif x < .87 and e.i and ifree: b = r.choice(list(e.i)); e.i[ifree[0]] = list(e.i[b]); e.c("clone %d %d" % (ifree[0], b), op="clone", a=ifree[0], b=b)
        elif x < .89 and e.i: e.iclose(r.choice(list(e.i)))
        elif x < .91 and e.i and e.o:                          # copy bytes or numbers from one stream to the other
            a, b = r.choice(list(e.i)), r.choice(list(e.o)); ino = e.i[a][0]; L = e.size(a)
            if ino == e.o[b][0]: continue
            v = sorted(t for t in e.items[ino] if t[1] in ("vint", "voff", "vll"))
            if v and r.random() < .6:
                run = [v[r.randrange(len(v))]]
                for t in v:
                    if t[0] == run[-1][0] + run[-1][2]: run.append(t)
                e.iseek(a, run[0][0])
                if r.random() < .3: e.c("skipv %d %d" % (a, len(run)), op="skipv", a=a, n=len(run), mayerr=1)
                else: e.c("cpv %d %d %d" % (a, b, len(run)), op="cpv", a=a, b=b, n=len(run), mayerr=1); e.put(b, bytes(e.ino[ino][run[0][0]:run[-1][0] + run[-1][2]]), "x")
                e.i[a][1] = run[-1][0] + run[-1][2]
            else:
                p = r.randrange(L + 1); n = r.choice([L - p, r.randrange(L - p + 1), min(L - p, 1024)]); e.iseek(a, p)
                e.c("cpb %d %d %d" % (a, b, n), op="cpb", a=a, b=b, n=n, mayerr=1); e.put(b, bytes(e.ino[ino][p:p + n]), "x"); e.i[a][1] = p + n
        elif x < .93:
            n, m = r.choice(names), r.choice(names)
            if n in d and (e.writing(d[n]) or (k, n) in e.pack) or (k, m) in e.pack or m in d and e.writing(d[m]): continue
            if r.random() < .6:
                e.c("rename %d %s %s" % (k, hx(n), hx(m)), op="rename", a=k, name=n, to=m, mayerr=1)
                if n in d: i = d.pop(n); d[m] = i
            else:
                if (k, n) in e.pack: continue
                e.c("remove %d %s" % (k, hx(n)), op="remove", a=k, name=n); d.pop(n, None)
        elif x < .96:
            n = r.choice(names + [LOCK]); y = r.random()
            if y < .35: e.c("exists %d %s" % (k, hx(n)), op="exists", a=k, name=n)
            elif y < .5:
                if (k, n) not in e.pack and not (n in d and e.writing(d[n])): e.c("length %d %s" % (k, hx(n)), op="length", a=k, name=n, mayerr=1)
            elif y < .7: e.c("each %d" % k, op="each", a=k); e.c("count %d" % k, op="count", a=k)
            elif y < .8: e.c("tos %d" % k, op="tos", a=k)
            elif n not in d and (k, n) not in e.pack: e.c("touch %d %s" % (k, hx(n)), op="touch", a=k, name=n); e.new(k, n)
        elif x < .97 and not any(q in e.pack for q in [(k, n) for n in d]):
            if any(e.writing(i) for i in d.values()): continue
            o = r.choice(["clear", "clearall", "clearlocks"])
            e.c("%s %d" % (o, k), op=o, a=k)
            for n in list(d):
                ram = e.kind[k] == "ram"
                if o == "clearlocks" and n == LOCK or o == "clear" and n != LOCK and (ram or n in IX) or o == "clearall" and (ram or n in IX): d.pop(n)
        elif x < .98 and sid < 6:
            if any(e.writing(i) for i in d.values()) or any((k, n) in e.pack for n in d): continue
            e.kind[sid] = "ram"; e.dir[sid] = {}
            e.c("copy %d %d" % (sid, k), op="copy", a=sid, b=k)
            for n in d:
                if n != LOCK: i = e.new(sid, n, e.ino[d[n]]); e.items[i] = list(e.items[d[n]])
            sid += 1
        elif sid < 6:
            fs = [n for n in e.files(k) if not e.writing(d[n])]
            if not fs: continue
            pn = "_%d.cfs" % r.randrange(50, 99)
            if pn in d: continue
            fs = r.sample(fs, r.randrange(1, len(fs) + 1)); bad = r.random() < .1
            fl = fs + ([fs[0]] if bad else [])
            e.c("cw %d %s %s" % (k, hx(pn), " ".join(map(hx, fl))), op="cw", a=k, name=pn, files=fl, mayerr=1)
            if bad: continue
            e.pack[(k, pn)] = fs; e.new(k, pn)
            e.kind[sid] = "cmpd"; e.dir[sid] = {}; e.c("cmpd %d %d %s" % (sid, k, hx(pn)), op="cmpd", a=sid, b=k, name=pn)
            for n in fs: i = e.new(sid, n, e.ino[d[n]]); e.items[i] = list(e.items[d[n]])
            for n in fs:
                if ifree: e.whole(ifree[0], sid, n, r.randrange(3))
            sid += 1
    for a in list(e.o):
        if r.random() < .2 and False: pass
        e.oclose(a)
    for a in list(e.i)[:6]: e.read(a, "bs", 1 if e.size(a) else 0)
    for a in list(e.i): e.iclose(a)
    for k in list(e.kind):
        e.c("each %d" % k, op="each", a=k); e.c("count %d" % k, op="count", a=k)
        for n in e.files(k): e.whole(9, k, n, r.randrange(3))
        if e.kind[k] == "fs" and r.random() < .5:
            if any(k2 for k2 in e.kind if e.kind[k2] == "cmpd"): continue
            e.c("stclose %d" % k, op="stclose", a=k); e.c("st %d fs s%d" % (k + 12, k), op="st", a=k + 12, kind="fs", fresh=0, **{"from": k}); e.dir[k + 12] = e.dir[k]
            e.c("each %d" % (k + 12), op="each", a=k + 12)
            for n in e.files(k)[:3]: e.whole(9, k + 12, n, 0)
    return e.done()
def buffers(r, eid):
    """memory buffers written to a file, as the index writer does"""
    e = Ep(r, eid); e.store(0, r.choice(["ram", "fs"])); e.out(0, 0, "x"); e.buf(1)
    for _ in range(r.randrange(2, 6)):
        for _ in range(r.randrange(1, 6)): e.w(1, r.choice(KINDS))
        if r.random() < .5:
            p = e.o[1][1]; e.w(1, "bs", size=(1024 - p) % 1024)
        e.c("to 1 0", op="to", a=1, b=0); e.put(0, bytes(e.ino[e.o[1][0]]), "x"); e.opos(0); e.c("olen 1", op="olen", a=1)
        if r.random() < .7: e.c("reset 1", op="reset", a=1); e.ino[e.o[1][0]] = bytearray(); e.o[1][1] = 0
    e.oclose(1); e.oclose(0); e.whole(0, 0, "x", r.randrange(3))
    return e.done()
def model(e, h, kind):
    """a history of StoreMC, then the file read back in every way"""
    e.store(0, kind); e.out(0, 0, "x")
    for o, v in h:
        ino, p = e.o[0]; L = len(e.ino[ino])
        if o == "seek": e.oseek(0, {"start": 0, "end": L, "middle": L // 2}[v])
        elif o == "vint": e.w(0, "vint", val=sum(g << 7 * i for i, g in enumerate(v)))
        else: e.w(0, o, size=v if o in ("bs", "str") else None)
        e.opos(0)
    e.oclose(0)
    for how in (0, 1, 2): e.whole(0, 0, "x", how)
    e.open(1, 0, "x")
    for p, kd, n in sorted(e.items[e.i[1][0]]): e.iseek(1, p); e.read(1, kd, n); e.ipos(1)
    e.c("cw 0 %s %s" % (hx("_9.cfs"), hx("x")), op="cw", a=0, name="_9.cfs", files=["x"], mayerr=1); e.pack[(0, "_9.cfs")] = 1; e.new(0, "_9.cfs")
    e.dir[1] = {}; e.new(1, "x", e.ino[e.dir[0]["x"]]); e.items[e.dir[1]["x"]] = e.items[e.dir[0]["x"]]; e.c("cmpd 1 0 %s" % hx("_9.cfs"), op="cmpd", a=1, b=0, name="_9.cfs")
    for how in (0, 2): e.whole(2, 1, "x", how)
    return e.done()
