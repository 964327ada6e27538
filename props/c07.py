import fv
from props import crashgen as K, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = K.build()
    c.mc("Commit")
    if fv.THOROUGH: c.mc("Commit", "CommitT.cfg", timeout=3000)
    eps = [K.history(r, "rc%d" % i, "race", ["content"], steps=r.choice([6, 10, 16]), race=(8, 25)) for i, r in X.rnds(pid, "rc", X.q(700, 8000))]
    for a in range(0, len(eps), 300): c.conform("CrashTrace", exe, eps[a:a + 300], mk=lambda ep, r: ep["_mk"](ep, r))
    return c.finish()
NOTE = ("The opening protocol is model checked against a committing, merging, cleaning writer (Commit.tla). For the real library a history is recorded change by change, and openings are "
        "replayed against it with the directory advanced by random numbers of changes between any two file calls of the opening reader, a deterministic two-process schedule; TLC "
        "requires every opening to succeed with a content current at some moment between its start and its end, and the reader to stay readable after the writer went on.")
