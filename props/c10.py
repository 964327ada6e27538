import fv
from props import crashgen as K, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = K.build()
    c.mc("Commit")
    if fv.THOROUGH: c.mc("Commit", "CommitT.cfg", timeout=3000)
    eps = [K.history(r, "fl%d" % i, "cr", ["files"], steps=r.choice([6, 10, 16]), foreign=r.choice([1, 3, 5]), cont=2, dens=r.choice([.2, .5]), stop=r.choice([0, .15])) for i, r in X.rnds(pid, "fl", X.q(700, 8000))]
    for a in range(0, len(eps), 300): c.conform("CrashTrace", exe, eps[a:a + 300], mk=lambda ep, r: ep["_mk"](ep, r))
    return c.finish()
NOTE = ("Random histories, many of them stopped at a random file change and continued, in a directory which also holds files of others with confusingly similar names; "
        "at every point and after every later opening of a writer TLC compares the directory with what the commit it holds needs: all of it is there, nothing else of the index is left after "
        "a writer has opened, and the files of others are never touched.")
