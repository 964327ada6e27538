import fv
from props import idxgen as G, qgen as K, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    eps = X.many(pid, "m", X.q(600, 8000), lambda r, i: G.multi(r, i))
    eps += [K.finish(K.together(r, "t%d" % i)) for i, r in X.rnds(pid, "t", X.q(150, 2500))]
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Two to four indexes with different schemas and field numberings, deletions and set norms are read through a multi-reader, modified through "
        "it and merged into another index; TLC compares every view with the concatenation of the parts. The same queries asked of a multi-searcher, a multi-reader and the merged index must give the same documents and scores.")
