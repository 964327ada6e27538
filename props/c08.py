import fv
from props import idxgen as G, idxcommon as X
def obs(e, st):
    e.c("locked 1", op="locked", k=1); e.c("dump 1", op="dump", a=1)
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("idxdrv")
    c.mc("IndexMC")
    eps = X.model(c, pid, obs, 4000)
    eps += X.many(pid, "c", X.q(500, 6000), lambda r, i: G.contend(r, i, steps=r.choice([30, 60])))
    X.batches(c, exe, eps)
    return c.finish()
NOTE = ("OneHolder and its companions are checked exhaustively on the model; generated histories and random contention among three writers and four "
        "readers, part of them through a second store object on the same directory, run on the real library; TLC decides for every attempt whether it "
        "must be granted or refused and that refused attempts change nothing.")
