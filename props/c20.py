import fv, random
from props import idxcommon as X
from fv import hx
U8 = lambda cs: list("".join(map(chr, cs)).encode()) if cs and isinstance(cs[0], int) else list(cs.encode())
MBASE = ["mbws", "mbwslc", "mblt", "mbltlc", "mbstd"]; ABASE = ["non", "ws", "lt", "std", "ustd"]; LEG = ["leg", "mbleg"]
ATOMS = ["a", "b", "S", "s", "word", "Word", "the", "THE", "and", "e-mail", "a-b-c", "x_y", "don't", "John's", "Johns'", "o'neil", "U.S.A", "T.N.T.", "AT&T", "R&D", "a@b", "me@x.org", '"q r"@x.y', '"qr"@[1.2]', "a.b@c", "-5", "+3.14", "12",
  "1,200", "3.x", "http", "https", "ftp", "file", "://", ":", "/", "//", ".", "..", "com", ".com", "foo.com", "www.x.co", ":80", "-", "--", "_", "'", "&", "@", "!", "#", "(", "\\", "\n", "\t", " ", " ", " ", "0", "1", "z9", "running", "flies", "hyphen-ated-word", "ing", "abc", "ab", "bc", "c"]
UNI = ["é", "É", "ß", "Ж", "ж", "中", "文", chr(0x1d49c), "Ⱥ", chr(0x212a), "Σ", chr(0x3000), chr(0x2003), "–", "€", chr(0x1f600), chr(0xa0), "été", "Été-x"]
def c(cmd, **ev): return (cmd, ev)
def text(r, uni, n=None):
    n = n if n is not None else r.choice([0, 1, 2, 4, 8, 16, 30]); a = ATOMS + (UNI * 2 if uni else [])
    return "".join(r.choice(a) + (" " if r.random() < .4 else "") for _ in range(n))
def w8(s): return list(s.encode())
def hw(s): return s.encode().hex() if isinstance(s, str) else bytes(s).hex()
def filters(r, base, ascii):
    """filters that are fully specified on any token of the base tokenizer"""
    ch, toks = [], []
    low = "lc" if ascii or r.random() < .2 else "mblc"
    if r.random() < .5: ch.append({"k": low}); toks.append(low)
    for _ in range(r.randrange(3)):
        x = r.random()
        if x < .4:
            ws = r.sample(["the", "and", "a", "b", "s", "word", "THE", "12", "é", "foo.com", "USA", "abc", "x"], r.randrange(0, 6)); z = r.choice(["stop", "stopz"])
            ch.append({"k": "stop", "w": [w8(w) for w in ws]}); toks.append(z + ":" + ",".join(hw(w) for w in ws))
        elif x < .65 and ch[-1:] != [] and not any(f["k"] == "stem" for f in ch) or x < .5 and not any(f["k"] == "stem" for f in ch):
            al = r.choice(["english", "porter", "french", "German"]); ch.append({"k": "stem"}); toks.append("stem:%s:UTF_8" % al.lower())
        elif x < .9:
            ms = maps(r); ch.append({"k": "map", "m": [[w8(p), w8(q)] for p, q in ms]}); toks.append("map:" + ",".join(hw(p) + "," + (hw(q) or "") for p, q in ms))
    if base in ("std", "mbstd", "ustd") and not any(f["k"] in ("map", "stem") for f in ch) and r.random() < .5: ch.append({"k": "hyphen"}); toks.append("hyphen")
    return ch, toks
def maps(r):
    ps = r.sample(["a", "b", "ab", "abc", "bc", "c", "word", "or", "é", "ing", "s", "foo", "Wo"], r.randrange(1, 5))
    return [(p, r.choice(["x", "yy", "a", "zzz", "ß", "ab"])) for p in ps]
def chain(r, base):
    ascii = base in ABASE
    f, t = filters(r, base, ascii); return [{"k": base}] + f, [base] + t
def tsn(k, ch, toks): return c("ts %d %d %s" % (k, len(toks), " ".join(toks)), op="ts", a=k, ch=ch)
def reset(k, b, valid=1): return c("reset %d %s" % (k, bytes(b).hex() or "-"), op="reset", a=k, b=list(b), valid=valid)
def nxt(k, n): return c("next %d %d" % (k, n), op="next", a=k, n=n)
def body(r, ch):
    """a text the chain is specified on"""
    uni = ch[0]["k"] in MBASE or r.random() < .2 and ch[0]["k"] in ("ws", "non", "std", "lt") and not any(f["k"] in ("mblc", "stem") for f in ch)
    return w8(text(r, uni))
def streams(r, eid):
    base = r.choice(ABASE + MBASE * 2); ch, toks = chain(r, base); cm = [tsn(0, ch, toks)]
    for _ in range(r.randrange(1, 7)):
        cm += [reset(0, body(r, ch)), nxt(0, r.choice([0, 1, 2, 3, 500, 500]))]
        if r.random() < .3: cm.append(nxt(0, r.choice([1, 500])))
    return {"id": eid, "cmds": cm + [reset(0, body(r, ch)), nxt(0, 500), c("tsfree 0", op="tsfree", a=0)]}
def analyzers(r, eid):
    """several analysers, per-field dispatch, streams alive at the same time"""
    cm = []; an = []; pf = []; info = {}
    for a in range(r.randrange(1, 4)):
        x = r.random()
        if x < .5:
            base = r.choice(ABASE + MBASE); ch, toks = chain(r, base); cm.append(c("an %d %d %s" % (a, len(toks), " ".join(toks)), op="an", a=a, ch=ch))
        else:
            kind = r.choice(["standard", "mb_standard", "utf8_standard", "ws", "mbws", "lt", "mblt", "non"]); lc = r.randrange(2); words = None; z = ""
            std = kind.endswith("standard")
            if std and r.random() < .6: words = r.sample(["the", "and", "a", "word", "s", "é", "abc"], r.randrange(0, 4))
            full = int(std and words is None)
            if std:
                ch = [{"k": {"standard": "std", "mb_standard": "mbstd", "utf8_standard": "ustd"}[kind]}] + ([{"k": "lc" if kind == "standard" else "mblc"}] if lc else []) + [{"k": "stop", "w": [w8(w) for w in words or []]}, {"k": "hyphen"}]
            elif kind in ("mbws", "mblt"): ch = [{"k": kind + ("lc" if lc else "")}]
            elif kind == "non": ch = [{"k": "non"}]
            else: ch = [{"k": kind}] + ([{"k": "lc"}] if lc else [])
            ws = "~" if words is None else ",".join(hw(w) for w in words) or "-"
            cm.append(c("pa %d %s %d %s%s" % (a, kind, lc, ws, " z" if words is not None and r.random() < .5 else ""), op="pa", a=a, ch=ch, full=full))
        an.append(a); info[a] = ch
    fs = ["f", "g", "title", "x"]
    if r.random() < .6:
        p = 5; d = r.choice(an); f = [(r.choice(fs), r.choice(an)) for _ in range(r.randrange(0, 5))]
        cm.append(c("pfa %d %d %d %s" % (p, d, len(f), " ".join("%s %d" % (hx(x), y) for x, y in f)), op="pfa", a=p, d=d, f=[[x, y] for x, y in f])); an.append(p); info[p] = dict(f); pd = d
    def ch(a, f): return info[a] if isinstance(info[a], list) else info[info[a].get(f, pd)]
    live = []
    for _ in range(r.randrange(2, 12)):
        if len(live) < 4 and r.random() < .5:
            k = [i for i in range(4) if i not in live][0]; a = r.choice(an); f = r.choice(fs); b = body(r, ch(a, f))
            cm.append(c("get %d %d %s %s" % (k, a, hx(f), bytes(b).hex() or "-"), op="get", a=k, an=a, f=f, b=b, valid=1)); live.append(k)
        elif live:
            k = r.choice(live); cm.append(nxt(k, r.choice([1, 2, 3, 500])))
            if r.random() < .3: live.remove(k); cm.append(c("tsfree %d" % k, op="tsfree", a=k))
    for k in live: cm.append(nxt(k, 500))
    return {"id": eid, "cmds": cm}
def longs(r, eid):
    """words around and beyond the longest token, long stretches without any word"""
    base = r.choice(["ws", "lt", "std", "non", "mbws", "mblt", "mbstd", "ustd", "mbwslc", "mbltlc", "mblcstd"]); cm = []
    ch = [{"k": "mbstd"}, {"k": "mblc"}] if base == "mblcstd" else [{"k": base}]
    cm.append(tsn(0, ch, [x["k"] for x in ch]))
    for _ in range(4):
        n = r.choice([250, 253, 254, 255, 256, 257, 300, 600]); u = r.choice(["a", "x", "A"] if base in ("ws", "lt", "std", "ustd", "non") else ["a", "é", "中", "ж", "Ⱥ"])
        if base in ("mbwslc", "mbltlc", "mblcstd"): n, u = (r.choice([200, 250, 253, 254]), "A") if r.random() < .5 else (r.choice([60, 84, 85, 86, 100, 126, 127]), "Ⱥ") if r.random() < .6 else (r.choice([250, 254, 300]), "a")
        if u != "a" and u != "x" and u != "A" and base not in ("mbwslc", "mbltlc", "mblcstd"): n //= r.choice([1, 2, 3])
        w = u * n
        if base in ("std", "mbstd", "ustd") and r.random() < .3: w = r.choice([".".join(u * min(n, 200)), "a" * n + "-" + "b" * 20, "http://" + "w" * n + ".com/", "me@" + "x" * n])
        t = r.choice(["", "go "]) + w + r.choice(["", " end", "! Fin."])
        cm += [reset(0, w8(t)), nxt(0, 900)]
    if base in ("mbstd", "std", "ustd", "mbws", "mblt") and r.random() < .5:
        g = r.choice([4000, 4094, 4095, 4096, 4097, 5000, 9000]); cm += [reset(0, w8("one" + " " * g + "two three" + "." * r.choice([0, 4096, 5000]) + " four")), nxt(0, 20)]
    return {"id": eid, "cmds": cm}
def anyb(r, eid):
    """arbitrary bytes, and the legacy tokenisers"""
    base = r.choice(MBASE + LEG * 3 + ["ws", "std"]); toks = [base] + r.choice([[], [], ["mblc"], ["mblc", "hyphen"], ["lc"]]); ch = [{"k": t} for t in toks]; cm = [tsn(0, ch, toks)]
    for _ in range(6):
        if base in LEG and r.random() < .6: b = w8(text(r, base == "mbleg"))
        elif base in LEG and r.random() < .3: b = w8(r.choice(["a", "1", "a.", "é"]) * r.choice([250, 254, 255, 256, 257, 400, 1000]) + r.choice(["", "://x", "'s", ".b", "@c.d", "&d", "/x/"]) + " t")
        else: b = [x or 1 for x in (bytes(r.choice([97, 98, 32, 45, 46, 0xc3, 0xa9, 0xff, 0xe4, 0xb8, 0xad, 0xf0, 0x80, 49, 64]) for _ in range(r.choice([1, 3, 8, 30]))))]
        cm += [reset(0, b, 0), nxt(0, r.choice([2, 900])), nxt(0, 900)]
    return {"id": eid, "cmds": cm}
def mappers(r, eid):
    cm = [c("mm 0", op="mm", a=0)]; n = 0
    for _ in range(r.choice([3, 8, 20])):
        if n == 0 or r.random() < .35:
            for _ in range(r.choice([1, 1, 2, 12])):
                p = "".join(r.choice("abc") for _ in range(r.choice([1, 1, 2, 3, 4]))) if r.random() < .9 else r.choice(["é", "中", "xyz", ""]); q = "".join(r.choice("abxy") for _ in range(r.choice([0, 1, 2, 5, 40])))
                cm.append(c("mmadd 0 %s %s" % (hx(p), hx(q)), op="mmadd", a=0, p=w8(p), x=w8(q), mayerr=1)); n += bool(p)
        else:
            t = "".join(r.choice(["a", "b", "c", "x", "ab", "é", "中"]) for _ in range(r.choice([0, 1, 2, 5, 12, 60, 150])))
            if r.random() < .5 and len(t) < 400: cm.append(c("mmmap 0 20000 %s" % hx(t), op="mmmap", a=0, b=w8(t)))
            else: cm.append(c("mmdyn 0 %s" % hx(t), op="mmdyn", a=0, b=w8(t)))
    return {"id": eid, "cmds": cm + [c("mmfree 0", op="mmfree", a=0)]}
def run(pid):
    ck = fv.Check(pid)
    exe = fv.build_driver("andrv", "asan")
    tx = ck.generate("AnalysisMC"); rn = random.Random(fv.SEED)
    if not fv.THOROUGH: tx = rn.sample(tx, 4000)
    eps = []
    for b in ("std", "mbstd", "ustd"):
        for i in range(0, len(tx), 40):
            ch = [{"k": b}] + rn.choice([[], [], [{"k": "hyphen"}], [{"k": "lc"}, {"k": "hyphen"}]]); cm = [tsn(0, ch, [x["k"] for x in ch])]
            for t in tx[i:i + 40]:
                if b == "ustd" and max(t) > 127: continue
                cm += [reset(0, U8(t)), nxt(0, 50)]
            eps.append({"id": "gen-%s%d" % (b, i), "cmds": cm})
    for tag, f, n in (("s", streams, 700), ("a", analyzers, 500), ("l", longs, 60), ("x", anyb, 300), ("m", mappers, 250)):
        eps += [f(r, "%s%d" % (tag, i)) for i, r in X.rnds(pid, tag, X.q(n, n * 12))]
    eps.append({"id": "known-utf8letters", "cmds": [tsn(0, [{"k": "ustd"}], ["ustd"]), reset(0, w8("l'été")), nxt(0, 9)]})
    for a in range(0, len(eps), 3000): ck.conform("AnalysisTrace", exe, eps[a:a + 3000])
    return ck.finish()
NOTE = ("Analysis.tla gives the tokens of every text exactly: whitespace and letter runs, the standard grammar as position sets with longest match, lower-casing, stop words with their gaps, hyphen expansion, "
        "mapping and per-field dispatch (the stemmer's own answers are taken from libstemmer). TLC enumerates all short texts over an alphabet reaching every rule (AnalysisMC, with the laws on offsets and coverage) "
        "and they are replayed on the three standard tokenisers; random texts run through random chains and analysers with partial reading, reuse and several live streams, built with the address sanitiser. "
        "The legacy tokenisers and undecodable bytes are held to bounds, order and quoting only.")
