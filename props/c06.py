import fv
from props import crashgen as K, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = K.build()
    c.mc("Commit")
    if fv.THOROUGH:
        c.mc("Commit", "CommitT.cfg", timeout=3000)
        for v in ("KeepNewest", "LeaveTorn", "DeleteEarly"): c.mcfail("Commit", "Commit%s.cfg" % v)
    eps = [K.history(r, "cr%d" % i, "cr", ["content"], steps=r.choice([6, 10, 16, 24]), dens=r.choice([.2, .5]), stop=r.choice([0, .15])) for i, r in X.rnds(pid, "cr", X.q(700, 8000))]
    for a in range(0, len(eps), 300): c.conform("CrashTrace", exe, eps[a:a + 300], mk=lambda ep, r: ep["_mk"](ep, r))
    return c.finish()
NOTE = ("The commit protocol is model checked file by file (Commit.tla: a writer stopped or failing at any point and started again, a reader opening meanwhile). "
        "The real library then runs random histories on a directory with every changing file call intercepted: after each of them (and half way through "
        "each write) the directory as it stands is copied, opened by a new reader, continued by a new writer or reader, and read again; some histories stop "
        "for good at such a point and go on from there. TLC requires every content found, documents with all their fields, terms, positions, vectors and norms, to be one of the states "
        "the interrupted operation passes through, in order, with the last commit never lost, and every continuation to work on top of it.")
