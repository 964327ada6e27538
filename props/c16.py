import fv
from props import idxgen as G, idxcommon as X, qgen as K
def both(lo, hi):
    if lo is None or hi is None: return True
    return lo < hi and (K.num(lo) is None or K.num(hi) is None or K.num(lo) < K.num(hi))
def filters(r, eid, **kw):
    nst = r.choice([1, 2, 2, 3])
    e = K.corpus(r, eid, nst=nst, mixed=r.random() < .3, **kw); x = K.Sea(e); g = K.Gen(e); g.stacked = True
    for k in range(1, nst + 1): x.sopen(k, k)
    rs = list(range(1, nst + 1)); r.shuffle(rs)
    e.mropen(20, rs); x.sopen(20, 20)
    ss = list(range(1, nst + 1)) + [20]
    if nst > 1: x.msopen(21, rs); ss.append(21)
    hs = list(range(1, r.choice([2, 3, 4]) + 1))
    g.multi = True
    for h in hs:
        f = g.filt()
        x.mkfilter(h, f)
        if r.random() < .5 and f.tok[:2] in ("RF", "TF") and both(*f.bounds):      # its twin of the other kind, asked with the same bounds
            o = "TF" if f.tok[:2] == "RF" else "RF"
            t = K.Q(o + f.tok[2:], lambda en, f=f, o=o: dict(f.ast(en), q=o))
            x.mkfilter(h + 10, t); hs = hs + [h + 10]
    for _ in range(r.choice([10, 16])):
        y = r.random()
        if y < .7:
            s = r.choice(ss); n = x.size(s)
            flt = x.usefilter(r.choice(hs)) if r.random() < .85 else g.filt()
            g.multi = s == 21
            z = r.random()
            if z < .15: q = K.Q("CS " + flt.tok, lambda en, flt=flt: dict(q="CS", x=flt.ast(en))); flt = None
            elif z < .35:
                a = g.any(1); q = K.Q("FQ %s %s" % (a.tok, flt.tok), lambda en, a=a, flt=flt: dict(q="FQ", a=a.ast(en), x=flt.ast(en)))
                flt = x.usefilter(r.choice(hs)) if r.random() < .3 else None
            else: q = g.MA() if r.random() < .4 else g.any(2)
            if r.random() < .25 and flt:        # filtering changes no score, however it is asked for
                if s == 21: g.neg += 1; g.stacked = True; q = g.any(1, (.55, .75, .97, .97)); g.neg -= 1   # nothing that expands differently in each part
                a = x.each(s, q); b = x.each(s, q, flt, like=(s, a), part=True)
                x.each(s, K.Q("FQ %s %s" % (q.tok, flt.tok), lambda en, a=q, flt=flt: dict(q="FQ", a=a.ast(en), x=flt.ast(en))), like=(s, b))
            elif r.random() < .6: x.each(s, q, flt)
            else: x.search(s, q, r.choice([0, 0, 1, 3]), r.choice([1, 3, max(1, n)]), flt)
        elif y < .82:
            c = [k for k in range(1, nst + 1) if e.readers[k]]
            if c: e.rdel(20 if 20 in ss else 1, r.choice(e.readers[r.choice(c)]))
        elif y < .9 and nst == 1:
            if 20 in ss: x.sclose(20); e.rclose(20)
            ss = [s for s in ss if s != 20]
            e.undel(1)
        else:                       # the same filters on new readers of changed indexes
            for s in list(x.open): x.sclose(s)
            if 20 in ss: e.rclose(20)
            for k in range(1, nst + 1):
                e.rclose(k)
                if r.random() < .6:
                    e.wopen(k, k)
                    for _ in range(r.choice([1, 2, 4])): e.add(k, fixed={f: [b" ".join(r.choice(e.words) for _ in range(3))] for f in ("a", "b")} | {"n": [r.choice(K.NUMS)]})
                    if e.stores[k]["docs"] and r.random() < .4: e.wdel(k, "id", [e.docid(r.choice(e.stores[k]["docs"]))])
                    if r.random() < .3: e.optimize(k)
                    e.wclose(k)
                e.ropen(k, k); x.sopen(k, k)
            e.mropen(20, rs); x.sopen(20, 20); ss = list(range(1, nst + 1)) + [20]
            if nst > 1: x.msopen(21, rs); ss.append(21)
    return e
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    many = lambda tag, n, **kw: [K.finish(filters(r, "%s%d" % (tag, i), **kw)) for i, r in X.rnds(pid, tag, n)]
    eps = many("f", X.q(1300, 15000))
    eps += many("l", X.q(40, 500), ndocs=lambda r: r.choice([40, 70, 130]))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Range, typed-range and query filters kept as objects are used again and again on several readers, a multi-reader and a multi-searcher, as search "
        "filters, filtered queries and constant-score queries, with documents deleted, undeleted and indexes reopened in between; TLC computes the set each must accept. A filtered search, a filtered query and the plain query must score documents alike.")
