import fv
from props import idxgen as G, idxcommon as X
W = ("norms",)
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    eps = X.many(pid, "h", X.q(700, 9000), lambda r, i: G.history(r, i, steps=r.choice([15, 30, 50]), obs=W, depth=4, maxtok=r.choice([4, 9, 30])))
    eps += X.many(pid, "w", X.q(100, 2000), lambda r, i: G.history(r, i, steps=20, obs=W, depth=3, longwords=True, mfl=r.choice([0, 1, 2, 5])))
    eps += X.many(pid, "m", X.q(200, 3000), lambda r, i: G.multi(r, i, obs=W, depth=3))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Random boosts on documents, fields and schemas, norms set through readers and multi-readers, through random histories with merges and "
        "add_readers; TLC compares every norm byte with the exact encoding of the boosts and lengths, or with the value set last.")
