import fv
from props import idxgen as G, idxcommon as X
def obs(e, st):
    for a in (1, 2):
        e.c("dump %d" % a, op="dump", a=a); e.c("latest %d" % a, op="latest", a=a)
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    c.mc("IndexMC")
    eps = X.model(c, pid, obs, 3000)
    eps += X.many(pid, "h", X.q(350, 5000), lambda r, i: snap(r, i))
    X.batches(c, exe, eps)
    return c.finish()
def snap(r, i):
    """many readers opened along a history, all of them looked at again and again"""
    e = G.history(r, i, steps=0)
    k, w, live, n = 1, None, [], 20
    for _ in range(r.choice([15, 30, 45])):
        x = r.random()
        if x < .35:
            if w is None: w = 1; e.wopen(1, 1)
            for _ in range(r.randrange(1, 5)): e.add(1)
        elif x < .45:
            if w: e.commit(1)
        elif x < .55:
            if w and e.stores[1]["docs"]: e.wdel(1, "id", [e.docid(d) for d in r.sample(e.stores[1]["docs"], min(3, len(e.stores[1]["docs"])))])
        elif x < .60:
            if w: e.optimize(1)
        elif x < .68:
            if w: e.wclose(1); w = None
        elif x < .82 and len(live) < 8: n += 1; e.ropen(n, 1); live.append(n)
        elif x < .87 and live: e.rclose(live.pop(r.randrange(len(live))))
        elif x < .95 and live and not w:
            q = r.choice(live)
            for d in r.sample(e.readers[q], min(2, len(e.readers[q]))): e.rdel(q, d)
            e.rcommit(q)
        for q in r.sample(live, min(3, len(live))):
            e.dump(q); e.latest(q)
            if r.random() < .3: G.observe(e, q, 1, what=("stored", "terms", "tvs", "norms", "skip"))
    if w: e.wclose(1)
    for q in live: e.latest(q); e.dump(q); G.observe(e, q, 1, what=("stored", "terms", "skip"))
    return e
NOTE = ("Generated histories with two readers observed after every step, and random ones with up to eight readers held open across commits, "
        "merges and deletions (files removed under them); TLC requires each reader to keep presenting the commit it was opened on, in content, "
        "terms, vectors and norms, and its staleness test to be right whenever the specification is certain.")
