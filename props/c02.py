import fv
from props import idxgen as G, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    eps = X.many(pid, "h", X.q(400, 6000), lambda r, i: G.history(r, i, steps=r.choice([10, 25, 40]), obs=("stored",), depth=3))
    eps += X.many(pid, "l", X.q(150, 2500), lambda r, i: G.history(r, i, steps=r.choice([10, 25]), obs=("stored",), depth=3, longvals=True))
    eps += X.many(pid, "m", X.q(120, 2000), lambda r, i: G.multi(r, i, obs=("stored",), depth=2, longvals=r.random() < .4))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Random documents (empty, binary, compressed, many-valued, up to 20000 bytes) pass through random histories of flushes, merges, "
        "add_readers and deletions; TLC compares every stored field, lazily and by byte range, with the document added. Values over 24 bytes are "
        "compared by SHA-1.")
