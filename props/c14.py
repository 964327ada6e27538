import fv
from props import idxgen as G, idxcommon as X, qgen as K
def paging(r, eid, **kw):
    nst = r.choice([1, 1, 2, 3])
    e = K.corpus(r, eid, nst=nst, mixed=r.random() < .3, **kw); x = K.Sea(e); g = K.Gen(e); g.stacked = True
    ss = K.searchers(e, nst, x)
    for _ in range(r.choice([3, 4, 5])):
        s = r.choice(ss); g.multi = s == 2; n = x.size(s)
        q = g.any(r.choice([0, 1, 2, 3])); flt = g.filt() if r.random() < .3 else None
        qid = x.each(s, q, flt)
        ws = [(0, max(1, n)), (0, 1)] + [(r.randrange(n + 2), r.choice([1, 1, 2, 3, 5, n + 3])) for _ in range(3)]
        for f, m in r.sample(ws, r.choice([2, 3, 4])): x.search(s, q, f, m, flt, qid)
        if flt is None:
            for _ in range(2): x.unscored(s, q, r.choice([0, 1, 2, 3, max(1, n), n + 5]), r.randrange(n + 2), qid)
            for d in r.sample(range(n), min(n, r.choice([2, 4, 8]))): x.explain(s, d, q, qid)
    return e
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    many = lambda tag, n, **kw: [K.finish(paging(r, "%s%d" % (tag, i), **kw)) for i, r in X.rnds(pid, tag, n)]
    eps = many("p", X.q(900, 12000))
    eps += many("l", X.q(40, 500), ndocs=lambda r: r.choice([40, 70, 130]))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("For random queries, filters and windows the list of (document, score) pairs reported by the each-match iteration is recorded; TLC ranks it "
        "and every search window, total, best score, unscored scan (any start, any limit) and explanation of the same query must agree with it.")
