import random, fv
def ev(cmd, **k): return (cmd, k)
def op(o, pos):
    """spec-generated operation -> driver commands"""
    n, k, i = o
    if n in ("set", "unset"): return ev("%s %d %d" % (n, k, i), op=n, a=k, i=i)
    if n == "notx": return ev("not %d %d" % (k, k), op="not", d=k, a=k)
    if n in ("andx", "orx", "xorx"): return ev("bin %s 1 1 2" % n[:-1], op=n[:-1], d=1, a=1, b=2)
    if n in ("and", "or", "xor"): return ev("bin %s 2 1 2" % n, op=n, d=2, a=1, b=2)
    return ev("not 2 1", op="not", d=2, a=1)
def dump(k, pos): return ev("dump %d %s" % (k, " ".join(map(str, pos))), op="dump", a=k)
def run(pid):
    c = fv.Check(pid)
    exe = fv.build_driver("bvdrv")
    hists = c.generate("BitVecMC")
    pos = [0, 1, 31, 32, 33, 63, 64, 254, 255, 256, 257, 300]
    eps = []
    for n, h in enumerate(hists):
        cm = [op(o, pos) for o in h]
        cm += [dump(1, pos), dump(2, pos), ev("eq 1 2", op="eq", a=1, b=2)]
        # touching a bit beyond the extent must not disturb the bits in between
        cm += [ev("set 1 200", op="set", a=1, i=200), dump(1, pos), ev("recount 1", op="recount", a=1)]
        eps.append({"id": "gen%d" % n, "cmds": cm})
    rnd = random.Random(fv.SEED)
    for n in range(400 if not fv.THOROUGH else 6000):
        cm = []
        span = rnd.choice([8, 40, 70, 130, 300, 700, 2000])
        hot = [b + d for b in (32, 64, 96, 128, 256, 512, 1024) for d in (-1, 0, 1) if b + d < span] or [0]
        bit = lambda: rnd.choice(hot) if rnd.random() < .4 else rnd.randrange(span)
        pp = sorted(set([0, 1, 7, 8, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, span - 1, span, span + 40, 3000] + [bit() for _ in range(8)]))
        for _ in range(rnd.randrange(5, 45)):
            x = rnd.random(); a = rnd.randrange(1, 5); b = rnd.randrange(1, 5); d = rnd.randrange(1, 5)
            if x < .05:
                cap = rnd.choice([0, 1, 32, 33, 64, 128, 256, 1024]); cm.append(ev("new %d %d" % (a, cap), op="new", a=a))
            elif x < .35: i = bit(); cm.append(ev("set %d %d" % (a, i), op="set", a=a, i=i))
            elif x < .45: i = bit(); cm.append(ev("unset %d %d" % (a, i), op="unset", a=a, i=i))
            elif x < .5:
                bits = sorted(set(bit() for _ in range(rnd.randrange(0, 12))))
                cm.append(ev("fast %d %d %s" % (a, span + 1, " ".join(map(str, bits))), op="fast", a=a, bits=bits))
            elif x < .52: cm.append(ev("clear %d" % a, op="clear", a=a))
            elif x < .66:
                o = rnd.choice(["and", "or", "xor"]); cm.append(ev("bin %s %d %d %d" % (o, d, a, b), op=o, d=d, a=a, b=b))
            elif x < .74: cm.append(ev("not %d %d" % (d, a), op="not", d=d, a=a))
            elif x < .80: cm.append(ev("recount %d" % a, op="recount", a=a))
            elif x < .85: i = rnd.choice([0, bit(), span]); cm.append(ev("next %d %d" % (a, i), op="next", a=a, i=i))
            elif x < .90: i = rnd.choice([0, bit(), span]); cm.append(ev("nextunset %d %d" % (a, i), op="nextunset", a=a, i=i))
            elif x < .95: cm.append(ev("eq %d %d" % (a, b), op="eq", a=a, b=b))
            else: cm.append(dump(a, pp))
        cm += [dump(k, pp) for k in (1, 2, 3, 4)]
        cm += [ev("eq %d %d" % (a, b), op="eq", a=a, b=b) for a in (1, 2, 3) for b in range(a + 1, 5)]
        eps.append({"id": "rnd%d" % n, "cmds": cm})
    c.conform("BitVecTrace", exe, eps)
    return c.finish()
NOTE = ("Every history of up to 4 operations of the set model (BitVecMC, exhaustive) is replayed on the real bit vectors and seeded "
        "long histories over up to 2000 bits are recorded; TLC judges every result against BitVec.tla. Trusts the driver's reporting.")
