import fv
from props import idxgen as G, idxcommon as X
def obs(e, st):
    e.c("ropen 9 1", op="ropen", a=9, k=1); e.c("rclose 9", op="rclose", a=9)
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    c.mc("IndexMC")
    eps = X.model(c, pid, obs, 3500)
    eps += X.many(pid, "h", X.q(500, 6000), lambda r, i: G.history(r, i, steps=r.choice([10, 25, 50]), obs=("terms", "stored")))
    eps += X.many(pid, "l", X.q(40, 400), lambda r, i: G.history(r, i, steps=90, obs=("terms",), batch=14, nwords=20))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("The abstract index (Index.tla) is model checked; a seeded sample of all depth-5 histories it generates (thorough: depth 6) and random "
        "long histories with flushing, merging, deletions, optimising and reopening run on the real library, and TLC decides after each step "
        "whether what a fresh reader shows is the content the specification prescribes. Bounded by the histories explored.")
