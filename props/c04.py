import fv
from props import idxgen as G, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    eps = X.many(pid, "h", X.q(700, 9000), lambda r, i: G.history(r, i, steps=r.choice([10, 25, 40]), obs=("tvs",), depth=4, norms=False, nwords=r.choice([3, 12, 40]), maxtok=r.choice([4, 9, 30])))
    eps += X.many(pid, "w", X.q(100, 2000), lambda r, i: G.history(r, i, steps=20, obs=("tvs",), depth=3, longwords=True, mfl=r.choice([0, 1, 2, 5])))
    eps += X.many(pid, "m", X.q(150, 2500), lambda r, i: G.multi(r, i, obs=("tvs",), depth=3))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Random schemas (vectors with and without positions and offsets) and documents through random histories with merges and add_readers; TLC "
        "compares every term vector, whole and per field, with the tokens the document has.")
