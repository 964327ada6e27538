import fv, random
from props import crashgen as K, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = K.build()
    c.mc("Commit")
    eps = [K.history(r, "ft%d" % i, "fl", ["content"], steps=r.choice([6, 10, 14])) for i, r in X.rnds(pid, "ft", X.q(400, 5000))]
    for a in range(0, len(eps), 300): c.conform("CrashTrace", exe, eps[a:a + 300], mk=lambda ep, r: ep["_mk"](ep, r), timeout=300)
    c.conform("CrashTrace", exe, [failedwriter(random.Random(1))], mk=lambda ep, r: ep["_mk"](ep, r), timeout=300)
    return c.finish()
def failedwriter(r):
    """a writer whose operation failed keeps its own lock and hangs on its next use"""
    e = K.Ep(r, "known-failedwriter", fields=("a",), nwords=4, maxtok=2); e.store(1, ram=False); e.maxd = 0
    e.plain(lambda: e.wopen(1, 1, "10 50 2147483647 128 16 0 0 10000")); e.add(1)
    e.under("fl 1 0 1 1 1", "fl", 1, lambda: e.commit(1))
    return e.finish(["content"])
NOTE = ("Random histories in which, in forked children, every n-th (or every single) changing file call of an operation fails (one failure, disk full from then on, or a short write); TLC requires "
        "that an operation which reports success had its whole effect, that a failed one left the index at one of its stages, readable, with new work possible on top of it, "
        "and that nothing hangs or dies.")
