import fv
from props import idxgen as G, idxcommon as X, qgen as K
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    many = lambda tag, n, mk, **kw: [K.finish(K.matching(r, "%s%d" % (tag, i), mk, **kw)) for i, r in X.rnds(pid, tag, n)]
    wrap = lambda m: lambda g: g.boolof(m(g), m) if g.r.random() < .2 else m(g)
    W = lambda g: g.word()
    eps = many("w", X.q(1600, 16000), wrap(W), nq=18) + many("l", X.q(150, 1500), lambda g: g.FZ() if g.r.random() < .7 and not (g.multi and g.neg) else W(g), nq=12, nwords=-1) + many("v", X.q(250, 2500), wrap(W), nq=18, nwords=40)
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Random prefix, wildcard, fuzzy, multi-term, range and typed-range queries (open, closed and missing ends, numeric and non-numeric words) over "
        "random vocabularies; TLC expands each against the episode's vocabulary (prefix, pattern, edit distance, byte order, decimal comparison are defined "
        "in Query.tla) and compares the documents.")
