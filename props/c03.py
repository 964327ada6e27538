import fv
from props import idxgen as G, idxcommon as X
W = ("terms", "skip", "seek")
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    eps = X.many(pid, "h", X.q(500, 6000), lambda r, i: G.history(r, i, steps=r.choice([10, 25, 40]), obs=W, depth=2, norms=False, nwords=r.choice([3, 12, 40])))
    eps += X.many(pid, "s", X.q(60, 800), lambda r, i: G.history(r, i, steps=40, obs=("skip", "seek"), depth=5, norms=False, nwords=4, batch=20, fields=("a",)))
    eps += X.many(pid, "w", X.q(150, 2000), lambda r, i: G.history(r, i, steps=20, obs=W, depth=2, norms=False, longwords=True, mfl=r.choice([0, 1, 2, 5])))
    eps += X.many(pid, "m", X.q(100, 2000), lambda r, i: G.multi(r, i, obs=W, depth=2))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Random histories over varying skip intervals, index intervals, merge factors and buffer sizes; TLC compares every term list, seek, posting "
        "list, position list, skip sequence, bulk read and document frequency with what the documents imply, whatever the segmentation.")
