import fv
from props import idxgen as G, idxcommon as X, qgen as K
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    many = lambda tag, n, mk, **kw: [K.finish(K.matching(r, "%s%d" % (tag, i), mk, **kw)) for i, r in X.rnds(pid, tag, n)]
    eps = [K.finish(K.multineg())]
    eps += many("t", X.q(1500, 15000), lambda g: g.any(g.r.choice([1, 2, 3]), (1, 1, 1, 1)))
    eps += many("b", X.q(1000, 12000), lambda g: g.any())
    eps += many("l", X.q(60, 600), lambda g: g.any(2, (.8, .9, .9, .95)), ndocs=lambda r: r.choice([40, 70, 130]), nq=8)
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Random boolean, term, filtered, constant-score and match-all queries nested to depth 4 (new, kept and extended query objects) over random "
        "indexes with deletions, asked through a searcher, a multi-searcher and a multi-reader and collected by search, each and the unscored scan; "
        "TLC evaluates the query's meaning over the documents of the reader's state and compares.")
