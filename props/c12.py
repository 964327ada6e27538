import fv
from props import idxgen as G, idxcommon as X, qgen as K
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    many = lambda tag, n, mk, **kw: [K.finish(K.matching(r, "%s%d" % (tag, i), mk, **kw)) for i, r in X.rnds(pid, tag, n)]
    wrap = lambda m: lambda g: g.boolof(m(g), m) if g.r.random() < .25 else m(g)
    P, S = (lambda g: g.P()), (lambda g: g.S())
    eps = many("p", X.q(900, 9000), wrap(P)) + many("s", X.q(1100, 11000), wrap(S))
    eps += many("n", X.q(200, 2000), wrap(lambda g: g.P() if g.r.random() < .5 else g.S()), maxtok=14, nq=16)
    eps += many("l", X.q(40, 400), wrap(lambda g: g.P() if g.r.random() < .5 else g.S()), ndocs=lambda r: r.choice([40, 80]), nq=8)
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("Random phrase queries (gaps, alternatives, slop, repeated terms) and span queries (term, multi-term, prefix, first, or, near in and out of "
        "order, not; nested) over random texts, also inside boolean queries so that scorers skip; TLC enumerates positions and spans and compares.")
