"""Queries, filters, sorts and the small indexes they are asked of.  A query is generated as a pair
(driver tokens, function giving the specification's syntax tree once terms are numbered)."""
import random
import fv
from fv import hx
from props import idxgen as G

NUMS = [b"0", b"1", b"2", b"3", b"7", b"10", b"12", b"20", b"100", b"007", b"-1", b"-10", b"1.5", b"2.25", b"+3", b".5", b"12.", b"-0.75"]
ODD = [b"-x", b"-y", b"--", b"-", b"+x", b".", b"-.", b"3a", b"1-", b"7.x", b"!9"]

class Q:
    def __init__(self, tok, ast): self.tok, self.ast = tok, ast
def lst(b): return list(b)

class Gen:
    def __init__(self, ep, fields=("a", "b"), kinds=None):
        self.e, self.r = ep, ep.rnd
        self.fields = list(fields)
        self.multi = False   # asked of a multi-searcher: nothing expanded per index under a negation (known finding)
        self.neg = 0
        self.stacked = False # no sloppy phrases with several parts at one position (their scores are not determined)
        self.pool = []       # query objects kept under a handle: used again whole or as parts of other queries
    def field(self): return self.r.choice(self.fields + (["zz"] if self.r.random() < .03 else []))
    def term(self, f=None):
        r = self.r
        t = self.e.anyterm() if r.random() < .2 else G.cut(r.choice(self.e.words))
        self.e.extra.add(t); return t
    # ---- words
    def T(self, f=None, span=False):
        f = f or self.field(); t = self.term(); k = "ST" if span else "T"
        return Q("%s %s %s" % (k, hx(f), hx(t)), lambda e: dict(q=k, f=f, t=e.rank[t]))
    def MT(self, f=None, span=False):
        f = f or self.field(); ts = [self.term() for _ in range(self.r.randrange(0 if not span else 1, 5))]; k = "SM" if span else "MT"
        return Q("%s %s %d %s" % (k, hx(f), len(ts), " ".join(map(hx, ts))), lambda e: dict(q=k, f=f, ts=[e.rank[t] for t in ts]))
    def PX(self, f=None, span=False):
        f = f or self.field(); w = self.term(); n = self.r.randrange(0, len(w) + 1); p = w[:n]; k = "SP" if span else "PX"
        return Q("%s %s %s" % (k, hx(f), hx(p)), lambda e: dict(q=k, f=f, p=lst(p)))
    def WC(self, f=None):
        r = self.r; f = f or self.field(); w = bytearray(self.term())
        w = bytearray(c for c in w if c not in b"*?")
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random(); i = r.randrange(len(w) + 1)
            if x < .35 and w: i %= len(w); w[i:i + 1] = b"?"
            elif x < .7: j = min(len(w), i + r.randrange(0, 4)); w[i:j] = b"*"
            elif x < .85: w.append(42)
            else: w.insert(0, 42)
        p = bytes(w) or b"*"
        return Q("WC %s %s" % (hx(f), hx(p)), lambda e: dict(q="WC", f=f, p=lst(p)))
    def FZ(self, f=None):
        r = self.r; f = f or self.field(); w = self.term()
        num, den = r.choice([(1, 2), (1, 4), (3, 4), (1, 8), (5, 8), (7, 8)])
        pl = r.choice([0, 0, 0, 1, 2, 3, len(w), len(w) + 1])
        if len(w) > 20: num, den = r.choice([(3, 4), (7, 8), (13, 16), (15, 16), (29, 32)]); pl = r.choice([0, 1, 5, 8, 12, len(w) - 1])
        return Q("FZ %s %s %r %d %d" % (hx(f), hx(w), num / den, pl, 0), lambda e: dict(q="FZ", f=f, p=lst(w), pl=pl, num=num, den=den))
    def bounds(self, typed):
        r = self.r
        lo, hi = self.term(), self.term()
        if typed and r.random() < .85:
            lo, hi = r.choice(NUMS), r.choice(NUMS); self.e.extra.update([lo, hi])
        isn = typed and num(lo) is not None and num(hi) is not None
        if (num(lo) > num(hi)) if isn else (lo > hi): lo, hi = hi, lo
        x = r.random(); il, iu = r.randrange(2), r.randrange(2)
        if x < .2: lo, il = None, 0
        elif x < .4: hi, iu = None, 0
        if lo is not None and hi is not None and (num(lo) == num(hi) if isn else lo == hi) and not (il and iu) and r.random() < .7: il = iu = 1
        return lo, hi, il, iu
    def RG(self, f=None, typed=None, filt=False):
        typed = self.r.random() < .5 if typed is None else typed
        f = f or ("n" if typed and "n" in self.e.fields and self.r.random() < .8 else self.field())
        lo, hi, il, iu = self.bounds(typed)
        k = ("TF" if typed else "RF") if filt else ("TR" if typed else "RG")
        o = lambda t: hx(t) if t is not None else "~"
        q = Q("%s %s %s %s %d %d" % (k, hx(f), o(lo), o(hi), il, iu),
              lambda e: dict(q=k, f=f, lo=e.rank[lo] if lo is not None else 0, hi=e.rank[hi] if hi is not None else 0, il=il, iu=iu))
        q.bounds = (lo, hi); return q
    # ---- phrases and spans
    def P(self, f=None):
        r = self.r; f = f or self.field(); n = r.choice([0, 1, 2, 2, 2, 3, 3, 4])
        slop = r.choice([0, 0, 0, 1, 1, 2, 3, 5, 10])
        pos, ps, tk = 0, [], []
        words = self.e.words
        for i in range(n):
            m = r.choice([1, 1, 1, 1, 2, 3])
            ts = [G.cut(r.choice(words)) if r.random() < .95 else self.term() for _ in range(m)]
            if slop and n > 3:   # repeated terms only in short sloppy phrases (the specification enumerates the choices)
                used = {t for _, q in ps for t in q}
                ts = [t for t in ts if t not in used]
                if not ts: continue
            ts = list(dict.fromkeys(ts))
            self.e.extra.update(ts)
            inc = r.choice([1, 1, 1, 1, 2, 3]) if ps else r.choice([0, 1])
            if ps and r.random() < .05 and not (self.stacked and slop): inc = 0
            pos = pos + inc if ps else 0
            ps.append((pos, ts)); tk.append("%d %d %s" % (inc, len(ts), " ".join(map(hx, ts))))
        return Q("P %s %d %d %s" % (hx(f), slop, len(ps), " ".join(tk)),
                 lambda e: dict(q="P", f=f, slop=slop, ps=[[p, [e.rank[t] for t in ts]] for p, ts in ps]))
    def unit(self, f): return self.r.choice([self.T, self.T, self.T, self.MT, self.MT if self.multi and self.neg else self.PX])(f, span=True)
    def under(self, make):
        self.neg += 1
        try: return make()
        finally: self.neg -= 1
    def span(self, f, d=2):
        r = self.r; x = r.random()
        if d == 0 or x < .2: return self.unit(f)
        if x < .35:
            a = self.span(f, d - 1); end = r.choice([0, 1, 1, 2, 3, 4, 6])
            return Q("SF %d %s" % (end, a.tok), lambda e: dict(q="SF", a=a.ast(e), end=end))
        if x < .5:
            cs = [self.span(f, d - 1) for _ in range(r.choice([1, 2, 2, 3]))]
            return Q("SO %d %s" % (len(cs), " ".join(c.tok for c in cs)), lambda e: {"q": "SO", "as": [c.ast(e) for c in cs]})
        if x < .85:
            n = r.choice([1, 2, 2, 2, 3, 3, 4]) if d < 2 or r.random() < .8 else 2
            cs = [self.unit(f) if r.random() < .75 else self.span(f, d - 1) for _ in range(n)]
            slop, io = r.choice([0, 0, 1, 2, 3, 5, 10]), r.randrange(2)
            return Q("SN %d %d %d %s" % (slop, io, n, " ".join(c.tok for c in cs)), lambda e: {"q": "SN", "slop": slop, "io": io, "as": [c.ast(e) for c in cs]})
        a, b = self.span(f, d - 1), self.under(lambda: self.unit(f))
        return Q("SX %s %s" % (a.tok, b.tok), lambda e: dict(q="SX", a=a.ast(e), b=b.ast(e)))
    def S(self): return self.span(self.field())
    # ---- combinations
    def word(self):
        if self.multi and self.neg: return self.r.choice([self.RG, self.MT, self.T])()
        return self.r.choice([self.PX, self.WC, self.FZ, self.RG, self.RG, self.MT, self.T])()
    def boost(self, q):
        if self.r.random() < .15:
            return Q("^ %s %s" % (self.r.choice(["2.0", "0.5", "10", "3.25"]), q.tok), q.ast)
        return q
    def leaf(self, mix):
        x = self.r.random()
        return self.boost(self.T() if x < mix[0] else self.P() if x < mix[1] else self.S() if x < mix[2] else self.word() if x < mix[3] else self.MA())
    def MA(self): return Q("MA", lambda e: dict(q="MA"))
    def any(self, d=3, mix=(.55, .7, .8, .95)):
        r = self.r
        if self.pool and r.random() < .12: return r.choice(self.pool)()
        if d == 0 or r.random() < .2: return self.leaf(mix)
        x = r.random()
        if x < .78:
            n = r.choice([0, 1, 2, 2, 2, 3, 3, 4, 6, 9]) if d > 1 else r.choice([1, 2, 2, 3, 4])
            prof = r.choice([[0], [0, 0, 1], [1], [0, 0, 2], [0, 1, 2], [1, 2], [0, 0, 0, 1, 2], [2]] )
            cs = []
            for o in (r.choice(prof) for _ in range(n)):
                sub = lambda: self.any(d - 1 if r.random() < .5 else 0, mix)
                cs.append((o, self.under(sub) if o == 2 else sub()))
            return self.boost(Q("B %d %d %s" % (r.randrange(2), n, " ".join("%d %s" % (o, q.tok) for o, q in cs)), lambda e: dict(q="B", c=[[o, q.ast(e)] for o, q in cs])))
        if x < .88:
            a, y = self.any(d - 1, mix), self.filt(1)
            return Q("FQ %s %s" % (a.tok, y.tok), lambda e: dict(q="FQ", a=a.ast(e), x=y.ast(e)))
        if x < .95:
            y = self.filt(1)
            return Q("CS %s" % y.tok, lambda e: dict(q="CS", x=y.ast(e)))
        return self.leaf(mix)
    def boolof(self, q, make):
        """q as one clause among others of its kind and terms, so that its scorer is skipped along"""
        r = self.r; cs = [(r.choice([0, 1, 1]), q)]
        for _ in range(r.choice([1, 1, 2, 3])):
            o = r.choice([0, 1, 2]); sub = lambda: self.T() if r.random() < .6 else make(self)
            cs.append((o, self.under(sub) if o == 2 else sub()))
        r.shuffle(cs)
        return Q("B 0 %d %s" % (len(cs), " ".join("%d %s" % (o, x.tok) for o, x in cs)), lambda e: dict(q="B", c=[[o, x.ast(e)] for o, x in cs]))
    def filt(self, d=2):
        r = self.r
        if r.random() < .5: return self.RG(filt=True)
        a = self.any(d, (.6, .75, .85, .95))
        return Q("QF %s" % a.tok, lambda e: dict(q="QF", a=a.ast(e)))

def num(b):
    try: return float(b)
    except ValueError: return None

TEXT = dict(st=1, ix=3, tv=7, bn=1, bd=1)
WORD = dict(st=1, ix=1, tv=0, bn=1, bd=1)

def words(rnd, n=0):
    s = set()
    if n < 0:  # long words, a few edits apart
        a = bytes(rnd.choice(b"abcd") for _ in range(rnd.choice([28, 33, 40, 58])))
        for _ in range(9):
            b = bytearray(a)
            for _ in range(rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 9])):
                i = rnd.randrange(rnd.choice([0, 5, 12]), len(b)); x = rnd.random()
                if x < .5: b[i] = rnd.choice(b"abcdxy")
                elif x < .75: del b[i]
                else: b.insert(i, rnd.choice(b"abcdxy"))
            s.add(bytes(b))
        return sorted(s)
    if n:      # many similar words
        while len(s) < n: s.add(bytes(rnd.choice(rnd.choice([b"ab", b"abc", b"abcdxyz"])) for _ in range(rnd.randrange(1, 8))))
        return sorted(s)
    for alph, n in ((b"ab", 6), (b"abc", 5), (b"xyz", 3)):
        for _ in range(n): s.add(bytes(rnd.choice(alph) for _ in range(rnd.choice([1, 1, 2, 2, 3, 4, 5]))))
    if rnd.random() < .3: s |= {b"\xc3\xa9t\xc3\xa9", b"\xff", b"a\xfe"}
    return sorted(s)[:rnd.choice([4, 6, 8, 14])]

def corpus(rnd, eid, nst=1, ndocs=None, sort=False, maxtok=8, longdocs=False, boosts=True, ram=None, mixed=False, nwords=0, dels=True):
    """nst indexes over fields a, b (text), u (one word), n (numbers); readers 1..nst open, some documents deleted"""
    e = G.Ep(rnd, eid, fields=("a", "b", "u", "n"), words=words(rnd, nwords), boosts=boosts, maxtok=maxtok)
    r = rnd; fam = []
    for k in range(1, nst + 1):
        names = ["a", "b", "u", "n", "id"]; r.shuffle(names)
        if mixed and r.random() < .3: names.remove(r.choice(["a", "b"]))
        e.sch.append(dict(f={x: dict(TEXT) if x in "ab" else dict(WORD) for x in names}, **{"def": dict(TEXT)}))
        fam.append(len(e.sch))
    nums = NUMS if r.random() < .6 else NUMS + (e.words[:3] if sort or r.random() < .4 else ODD)
    for k in range(1, nst + 1):
        e.store(k, sch=fam[k - 1], ram=ram)
        e.wopen(k, k)
        n = ndocs(r) if ndocs else r.choice([0, 1, 3, 6, 10, 16])
        for _ in range(n):
            fx = {}
            for f in ("a", "b"):
                if f not in e.sch[fam[k - 1] - 1]["f"]: continue
                if r.random() < .85:
                    m = r.choice([0, 1, 2, 3, 5, maxtok, maxtok]) if not longdocs else r.choice([1, 5, 20, 40])
                    fx[f] = [b" ".join(r.choice(e.words) for _ in range(m))]
                    if r.random() < .1: fx[f].append(b" ".join(r.choice(e.words) for _ in range(2)))
            if r.random() < .8: fx["u"] = [r.choice(e.words)]
            if r.random() < .85: fx["n"] = [r.choice(nums)]
            e.add(k, fixed=fx)
            if r.random() < .12: e.commit(k)
        if dels and e.stores[k]["docs"] and r.random() < .4:
            e.wdel(k, "id", [e.docid(d) for d in r.sample(e.stores[k]["docs"], min(len(e.stores[k]["docs"]), r.choice([1, 2, 5])))])
        if r.random() < .15: e.optimize(k)
        e.wclose(k); e.ropen(k, k)
    return e

def vocab(e):
    def v(x):
        return [list(t) for t, _ in sorted(x.rank.items(), key=lambda p: p[1])]
    return v

def finish(e):
    d = e.done()
    d["voc"] = [list(t) for t, _ in sorted(e.rank.items(), key=lambda p: p[1])]
    return d

NONE = dict(q="none")
class Sea:
    """searchers over the readers of an episode"""
    def __init__(self, e): self.e, self.r, self.open, self.nq, self.filters, self.queries = e, e.rnd, {}, 0, {}, {}
    def sopen(self, s, r): self.e.c("sopen %d %d" % (s, r), op="sopen", a=s, rs=[r]); self.open[s] = [r]
    def msopen(self, s, rs): self.e.c("msopen %d %s" % (s, " ".join(map(str, rs))), op="sopen", a=s, rs=list(rs)); self.open[s] = list(rs)
    def sclose(self, s): self.e.c("sclose %d" % s, op="sclose", a=s); self.open.pop(s)
    def size(self, s): return sum(len(self.e.readers[x]) for x in self.open[s])
    def mkfilter(self, h, flt): self.e.c("filter %d %s" % (h, flt.tok), op="nop"); self.filters[h] = flt
    def usefilter(self, h): f = self.filters[h]; return Q("F %d" % h, f.ast)
    def mkquery(self, h, q, boolean=None):
        """keep a query object; a boolean one may get more clauses later"""
        if boolean is not None:
            self.e.c("query %d B 0 0" % h, op="nop"); self.queries[h] = []
            for o, c in boolean: self.qadd(h, o, c)
        else: self.e.c("query %d %s" % (h, q.tok), op="nop"); self.queries[h] = q
    def qadd(self, h, o, q):
        self.e.c("qadd %d %d %s" % (h, o, q.tok), op="nop"); self.queries[h] = self.queries[h] + [(o, q)]
    def useq(self, h):
        q = self.queries[h]
        if isinstance(q, Q): return Q("H %d" % h, q.ast)
        return Q("H %d" % h, lambda e: dict(q="B", c=[[o, c.ast(e)] for o, c in q]))
    def _f(self, flt): return (flt.tok, flt.ast) if flt else ("0", lambda e: NONE)
    def each(self, s, q, flt=None, like=None, part=False):
        self.nq += 1; t, fa = self._f(flt); kw = dict(like=list(like), **({"part": 1} if part else {})) if like else {}
        self.e.c("each %d %s %s" % (s, t, q.tok), op="each", a=s, q=q.ast, flt=fa, qid=self.nq, **kw)
        return self.nq
    def search(self, s, q, first=0, num=10, flt=None, qid=0, sort=None):
        t, fa = self._f(flt)
        ss = sort[0] if sort else "-1"
        ev = dict(op="search", a=s, q=q.ast, flt=fa, first=first, num=num, qid=qid)
        if sort: ev["op"] = "sorted"; ev["sort"] = sort[1]; ev["mayerr"] = 1
        self.e.c("search %d %d %d %s %s %s" % (s, first, num, t, ss, q.tok), **ev)
    def unscored(self, s, q, lim, off, qid=0): self.e.c("unscored %d %d %d %s" % (s, lim, off, q.tok), op="unscored", a=s, q=q.ast, lim=lim, off=off, qid=qid)
    def explain(self, s, d, q, qid): self.e.c("explain %d %d %s" % (s, d, q.tok), op="explain", a=s, d=d, qid=qid)

def searchers(e, nst, x):
    """searcher 1: one index; 2: several indexes through a multi-searcher; 3: through a multi-reader"""
    r = e.rnd
    x.sopen(1, 1); out = [1]
    if nst > 1:
        rs = list(range(1, nst + 1)); r.shuffle(rs)
        x.msopen(2, rs); out.append(2)
        e.mropen(20, rs); x.sopen(3, 20); out.append(3)
    return out

def matching(rnd, eid, make, nq=12, dels=True, reuse=True, **kw):
    """ask queries made by make(gen) of one or several indexes, in every way of collecting matches; some query
    objects are kept, extended and asked again, also after the indexes have changed and been opened anew"""
    r = rnd; nst = r.choice([1, 1, 1, 2, 3])
    e = corpus(r, eid, nst=nst, mixed=r.random() < .3, **kw); x = Sea(e); g = Gen(e)
    ss = searchers(e, nst, x); many = nst > 1; hs = []
    if reuse and r.random() < .6:
        g.multi, g.neg = many, 1        # they may end up under a negation
        for h in range(1, r.choice([1, 2, 3]) + 1):
            if r.random() < .6: x.mkquery(h, make(g))
            else: x.mkquery(h, None, boolean=[(o, g.under(lambda: make(g)) if o == 2 else make(g)) for o in r.choice([[], [2], [2], [0], [0, 2], [1, 0]])])
            hs.append(h)
            if isinstance(x.queries[h], Q): g.pool.append(lambda h=h: x.useq(h))   # fixed ones also become parts of others
    g.neg = 0
    cut = nq // 2 if hs and r.random() < .5 else -1
    for i in range(nq):
        if i == cut:
            for s in ss: x.sclose(s)
            if many: e.rclose(20)
            for k in range(1, nst + 1):
                e.rclose(k)
                if r.random() < .7:
                    e.wopen(k, k)
                    for _ in range(r.choice([1, 2, 5])): e.add(k, fixed={f: [b" ".join(r.choice(e.words) for _ in range(4))] for f in ("a", "b")} | {"n": [r.choice(NUMS)]})
                    if e.stores[k]["docs"] and r.random() < .4: e.wdel(k, "id", [e.docid(r.choice(e.stores[k]["docs"]))])
                    e.wclose(k)
                e.ropen(k, k)
            ss = searchers(e, nst, x)
        s = r.choice(ss); n = x.size(s)
        g.multi = s == 2 or (many and bool(hs))
        if hs and r.random() < .4:
            h = r.choice(hs)
            if not isinstance(x.queries[h], Q) and r.random() < .4:
                o = r.choice([0, 1, 2]); pool, g.pool = g.pool, []     # no query within itself
                x.qadd(h, o, g.under(lambda: make(g)) if o == 2 else make(g)); g.pool = pool
            q = x.useq(h)
        else: q = make(g)
        flt = g.filt() if r.random() < .15 else None
        y = r.random()
        if y < .5: x.each(s, q, flt)
        elif y < .75: x.search(s, q, 0, max(1, n), flt)
        else: x.unscored(s, q, r.choice([1, 2, max(1, n), n + 5]), r.choice([0, 0, 0, 1, n // 2, max(0, n - 1)]))
        if dels and r.random() < .08 and e.readers[1]:
            e.rdel(20 if many else 1, r.choice(e.readers[1]))
    return e

def together(rnd, eid, nq=10, **kw):
    """the same documents through a multi-searcher, a multi-reader and merged into one index: the same scores"""
    r = rnd; nst = r.choice([2, 2, 3])
    e = corpus(r, eid, nst=nst, mixed=r.random() < .3, dels=False, **kw); x = Sea(e); g = Gen(e); g.multi, g.neg, g.stacked = True, 1, True   # nothing that expands differently in each part
    rs = list(range(1, nst + 1)); r.shuffle(rs)
    x.msopen(2, rs); e.mropen(20, rs); x.sopen(3, 20)
    t = nst + 1; e.store(t, sch=r.randrange(1, nst + 1)); e.wopen(t, t); e.addreaders(t, rs)
    if r.random() < .5: e.optimize(t)
    e.wclose(t); e.ropen(t, t); x.sopen(4, t)
    for _ in range(nq):
        q = g.any(r.choice([0, 1, 2]), (.55, .75, .97, .97)); flt = g.filt() if r.random() < .15 else None
        ss = [2, 3, 4]; r.shuffle(ss); a = x.each(ss[0], q, flt)
        for s in ss[1:]: x.each(s, q, flt, like=(ss[0], a))
    return e

def multineg():
    """the known finding: two indexes, a prohibited prefix whose expansions differ"""
    r = random.Random(7)
    e = G.Ep(r, "known-multineg", fields=("a",), words=[b"ax", b"ay", b"b"], boosts=False)
    e.sch.append(dict(f={x: dict(TEXT) if x == "a" else dict(WORD) for x in ("a", "id")}, **{"def": dict(TEXT)}))
    fam = len(e.sch)
    for k, ws in ((1, [b"ax", b"b"]), (2, [b"ay", b"b"])):
        e.store(k, sch=fam, ram=True); e.wopen(k, k)
        for w in ws: e.add(k, fixed={"a": [w]})
        e.wclose(k); e.ropen(k, k)
    x = Sea(e); x.msopen(2, [1, 2])
    x.unscored(2, Q("B 0 1 2 PX %s %s" % (hx("a"), hx(b"a")), lambda e: dict(q="B", c=[[2, dict(q="PX", f="a", p=lst(b"a"))]])), 10, 0)
    return e
