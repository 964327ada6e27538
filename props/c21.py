import fv, random
from props import storegen as S, idxcommon as X
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("storedrv")
    hs = c.generate("StoreMC", cfg="StoreMC4.cfg" if fv.THOROUGH else "StoreMC.cfg")
    if not fv.THOROUGH: hs = random.Random(fv.SEED).sample(hs, min(900, len(hs)))
    eps = [S.model(S.Ep(random.Random(n), "gen%d" % n), h, "ram" if n % 2 else "fs") for n, h in enumerate(hs)]
    eps += [S.history(r, "h%d" % i, r.choice([20, 50, 90])) for i, r in X.rnds(pid, "h", X.q(700, 12000))]
    eps += [S.buffers(r, "b%d" % i) for i, r in X.rnds(pid, "b", X.q(150, 1500))]
    for a in range(0, len(eps), 600): c.conform("StoreTrace", exe, eps[a:a + 600])
    return c.finish()
NOTE = ("Store.tla: stores as maps from names to byte sequences, streams as positions in them. Histories of writes and seeks around the buffer size are "
        "enumerated by TLC (StoreMC) and replayed on file and memory stores and through compound files, together with long random histories of all store and stream "
        "operations (several stores, streams held open across removals and renames, clones, copies, packing, memory buffers); TLC judges every byte, number, position, length, listing and error.")
