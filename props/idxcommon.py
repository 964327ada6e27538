"""How the index properties are exercised: the same specification (IndexTrace) judges all of them,
each property gets its own mix of model-generated and random histories."""
import random, fv
from props import idxgen as G

def rnds(pid, tag, n):
    for i in range(n): yield i, random.Random("%s-%s-%d-%d" % (pid, tag, fv.SEED, i))
def many(pid, tag, n, f):
    return [f(r, "%s%d" % (tag, i)).done() for i, r in rnds(pid, tag, n)]
def model(c, pid, obs, quick, cfg="IndexGen.cfg", thorough_cfg="IndexGen6.cfg"):
    """histories IndexMC generates, every one (thorough) or a seeded sample (quick), on memory and file stores"""
    hs = c.generate("IndexMC", cfg=thorough_cfg if fv.THOROUGH else cfg, timeout=800)
    r = random.Random("%s-gen-%d" % (pid, fv.SEED))
    hs.sort(); r.shuffle(hs)
    n = 40000 if fv.THOROUGH else quick
    out = []
    confs = ["10 10 2147483647 128 16 1 0", "10 10 2147483647 128 16 0 0", "2 2 2147483647 4 2 1 0", "2 3 2147483647 4 2 0 0"]
    for i, h in enumerate(hs[:n]):
        out.append(G.from_model(h, "gen%d" % i, random.Random(i), ram=i % 3 == 0, obs=obs, conf=confs[i % 4]).done())
    return out
def batches(c, exe, eps, size=2500):
    for a in range(0, len(eps), size): c.conform("IndexTrace", exe, eps[a:a + size], mk=G.mk)
def q(quick, thorough): return thorough if fv.THOROUGH else quick
