import fv
from fv import hx
from props import idxgen as G, idxcommon as X, qgen as K
def mksort(r, multi):
    """a list of keys: driver tokens and the specification's form; a multi-searcher decides automatic types by its first
    index, so it gets them on uniformly typed fields only, and has no order of bytes across indexes (known finding)"""
    ks = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 6])):
        t = r.choice(["score", "doc", "int", "int", "float", "float", "string", "string", "byte", "auto", "auto"])
        if multi and t in ("byte", "auto"): t = "string"
        f = "" if t in ("score", "doc") else r.choice(["n", "n", "u", "a"]) if t in ("int", "float") else r.choice(["u", "u", "n", "a", "b"])
        if f and r.random() < .02: f = "zz"
        ks.append([t, f, r.choice([0, 1])])
    return ("%d %s" % (len(ks), " ".join("%s %s %d" % (t, hx(f or "x"), v) for t, f, v in ks))).strip(), ks
def plain(w): return w and not (w[:1] in b"0123456789+-." or w[:1].isspace() or w[:3].lower() in (b"inf", b"nan"))
def sorts(r, eid, **kw):
    nst = r.choice([1, 1, 2, 3])
    e = K.corpus(r, eid, nst=nst, sort=True, **kw); x = K.Sea(e); g = K.Gen(e); g.stacked = True
    ss = K.searchers(e, nst, x)
    for _ in range(r.choice([3, 4, 5])):
        s = r.choice(ss); g.multi = s == 2; n = x.size(s)
        q = g.MA() if r.random() < .5 else g.any(r.choice([0, 1, 1, 2])); flt = g.filt() if r.random() < .15 else None
        qid = x.each(s, q, flt)
        for _ in range(r.choice([2, 3, 4])):
            srt = mksort(r, s == 2)
            ws = [(0, max(1, n)), (0, 1), (r.randrange(n + 2), r.choice([1, 2, 3, 5, n + 3])), (r.randrange(n // 2 + 1), r.choice([1, 2, 4, 2147483647]))]
            for f, m in r.sample(ws, r.choice([1, 2, 3])): x.search(s, q, f, m, flt, qid, sort=srt)
        if r.random() < .2 and e.readers[1]: e.rdel(20 if nst > 1 else 1, r.choice(e.readers[1]))
        elif r.random() < .15 and nst == 1: e.undel(1)
    return e
def byteorder():
    """the known finding: two indexes sorted by bytes compare the ordinals of terms within each"""
    import random
    r = random.Random(7)
    e = G.Ep(r, "known-multibyte", fields=("a", "u"), words=[b"a", b"b", b"c"], boosts=False)
    e.sch.append(dict(f={x: dict(K.TEXT) if x == "a" else dict(K.WORD) for x in ("a", "u", "id")}, **{"def": dict(K.TEXT)}))
    fam = len(e.sch)
    for k, ws in ((1, [b"b", b"c"]), (2, [b"a"])):
        e.store(k, sch=fam, ram=True); e.wopen(k, k)
        for w in ws: e.add(k, fixed={"a": [b"a"], "u": [w]})
        e.wclose(k); e.ropen(k, k)
    x = K.Sea(e); x.msopen(2, [1, 2]); g = K.Gen(e)
    q = g.MA(); qid = x.each(2, q)
    x.search(2, q, 0, 3, None, qid, sort=("1 byte %s 0" % hx("u"), [["byte", "u", 0]]))
    return e
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    many = lambda tag, n, **kw: [K.finish(sorts(r, "%s%d" % (tag, i), **kw)) for i, r in X.rnds(pid, tag, n)]
    eps = [K.finish(byteorder())]
    eps += many("s", X.q(1100, 14000), boosts=False)
    eps += many("l", X.q(40, 500), ndocs=lambda r: r.choice([40, 70, 130]))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("For random queries, filters, sort keys (integer, float, string, bytes, automatic, score, document number, each direction, up to six of them) and windows the "
        "matches and scores reported by the each-match iteration are recorded; TLC computes each document's keys from its terms, orders the matches and every sorted "
        "window, total and best score must agree; on single indexes, multi-readers and multi-searchers, with deletions and undeletions in between.")
