import fv, random
from props import idxcommon as X, qgen as K
from fv import hx
def c(cmd, **ev): return (cmd, ev)
L = lambda s: list(s if isinstance(s, bytes) else s.encode())
class HEp:
    """documents with texts, and the numbering of terms"""
    def __init__(self, r): self.rnd, self.words, self.extra, self.fields = r, [], set(), ("f", "g")
    def anyterm(self): return self.rnd.choice([b"zz", b"a", b"q", b"abc", b""])[:9] or b"zz"
TAGS = [("<b>", "</b>", "..."), ("[", "]", "~"), ("<", ">", ""), ("<span class=\"1\">", "</span>", "&#8230;&#8230;&#8230;"), ("{", "}", "~~")]
def value(r, ws, n):
    s = r.choice(["", "", " ", "\n "])
    for i in range(n): s += r.choice(ws).decode() + r.choice([" ", " ", " ", "  ", " \t  "] if i < n - 1 else ["", "", " ", "  "])
    return s
def ep(r, eid, long=False):
    e = HEp(r); e.words = K.words(r)[:r.choice([3, 5, 8, 14])]; e.words = [w for w in e.words if max(w) < 128] or [b"a"]
    if r.random() < .3: e.words.append(b"w" * r.choice([20, 60, 254]))
    nst = r.choice([1, 1, 2]); cm = []; docs = []
    for k in range(nst):
        cm += [c("store %d ram -" % k, op="x")]
        fs = ["f", "g", "h"]; r.shuffle(fs)
        cm += [c("create %d 1 3 0 3 %s" % (k, " ".join("%s 1 3 %d 1" % (hx(f), {"f": 7, "g": 7, "h": r.choice([0, 1, 3, 5])}[f]) for f in fs)), op="x"), c("wopen %d %d 10 1000 2147483647 128 16 1 0 0" % (k, k), op="x")]
        for _ in range(r.choice([1, 2, 4])):
            d = []
            for f in ("f", "g", "h"):
                if r.random() < .1: continue
                n = r.choice([0, 1, 2, 3, 5, 8, 12, 25, 40] + ([80, 150, 300] if long else []))
                vs = [value(r, e.words, n)] if r.random() < .8 else [value(r, e.words, r.randrange(6)) for _ in range(r.choice([2, 3]))]
                d.append([f, [L(v) for v in vs]])
            docs.append(d)
            cm.append(c("add %d 1 %d %s" % (k, len(d), " ".join("%s 1 %d %s" % (hx(f), len(vs), " ".join(hx(bytes(v)) for v in vs)) for f, vs in d)), op="x"))
            if r.random() < .2: cm.append(c("commit %d" % k, op="x"))
        cm += [c("wclose %d" % k, op="x"), c("ropen %d %d" % (k, k), op="x")]
    cm.append(c("sopen 0 0" if nst == 1 else "msopen 0 0 1", op="docs", docs=docs))
    g = K.Gen(e, fields=("f", "g")); g.multi = nst > 1
    qs = []
    for _ in range(r.choice([6, 10])):
        q = g.any(r.choice([0, 0, 1, 2]), (.3, .6, .8, .97))
        for _ in range(r.choice([2, 3, 4])):
            d = r.randrange(len(docs)); f = r.choice(["f", "f", "f", "g", "g", "h"]); tl = max([sum(len(v) + 1 for v in vs) for x, vs in docs[d] if x == f] + [1])
            num = r.choice([1, 1, 2, 3, 5, 8]); ln = r.choice([1, 2, 3, 5, 10, 15, 25, 40, max(1, tl // num), max(1, tl // num - 1), tl // num + 1, max(1, tl // (2 * num)), 1000000])
            pre, post, ell = r.choice(TAGS)
            qs.append((q, d, f, ln, num, pre, post, ell))
    terms = set(e.words) | e.extra | {bytes(w) for d in docs for f, vs in d for v in vs for w in bytes(v).split()}
    e.rank = {t: i + 1 for i, t in enumerate(sorted(terms))}
    for q, d, f, ln, num, pre, post, ell in qs:
        cm.append(c("highlight 0 %d %s %d %d %s %s %s %s" % (d, hx(f), ln, num, hx(pre), hx(post), hx(ell) if ell else "-", q.tok), op="hl", q=q.ast(e), d=d, f=f, len=ln, num=num, pre=L(pre), post=L(post), ell=L(ell)))
    return {"id": eid, "cmds": cm, "voc": [list(t) for t in sorted(terms)]}
VOC = ["a", "b", "cc"]
def fixed():
    """the queries of HighlightMC, as the driver takes them and as the specification does"""
    f, w = hx("f"), lambda k: hx(VOC[k - 1])
    T = lambda t: ("T %s %s" % (f, w(t)), dict(q="T", f="f", t=t))
    ST = lambda t: ("ST %s %s" % (f, w(t)), dict(q="ST", f="f", t=t))
    def P(slop, ps):
        return ("P %s %d %d %s" % (f, slop, len(ps), " ".join("%d %d %s" % (o - (ps[i - 1][0] if i else 0), len(ts), " ".join(map(w, ts))) for i, (o, ts) in enumerate(ps))),
                dict(q="P", f="f", slop=slop, ps=[[o, ts] for o, ts in ps]))
    B = lambda *cs: ("B 0 %d %s" % (len(cs), " ".join("%d %s" % (o, q[0]) for o, q in cs)), dict(q="B", c=[[o, q[1]] for o, q in cs]))
    ab = [(0, [1]), (1, [2])]
    return [T(1), T(3), P(0, ab), P(0, [(0, [1]), (1, [1])]), P(1, ab), P(0, [(0, [1, 2]), (2, [3])]), B((0, T(1)), (1, T(2)), (2, T(3))), B((0, T(2)), (0, P(0, ab))),
            ("SM %s 2 %s %s" % (f, w(1), w(3)), dict(q="SM", f="f", ts=[1, 3])), ("SN 0 1 2 %s %s" % (ST(1)[0], ST(2)[0]), dict(q="SN", slop=0, io=1, **{"as": [ST(1)[1], ST(2)[1]]})), T(2)]
def small(r, eid, texts):
    docs = [[["f", [L(" ".join(VOC[k - 1] for k in t))]]] for t in texts]
    cm = [c("store 0 ram -", op="x"), c("create 0 1 3 0 1 %s 1 3 7 1" % hx("f"), op="x"), c("wopen 0 0 10 1000 2147483647 128 16 1 0 0", op="x")]
    cm += [c("add 0 1 1 %s 1 1 %s" % (hx("f"), hx(bytes(d[0][1][0]))), op="x") for d in docs]
    cm += [c("wclose 0", op="x"), c("ropen 0 0", op="x"), c("sopen 0 0", op="docs", docs=docs)]
    for d in range(len(docs)):
        n = len(docs[d][0][1][0])
        for tok, ast in fixed():
            for ln, num in [(n + 1, 1)] + r.sample([(a, b) for b in (1, 2, 3) for a in range(1, n // b + 1)], 5):
                cm.append(c("highlight 0 %d %s %d %d %s %s %s %s" % (d, hx("f"), ln, num, hx("<"), hx(">"), hx(".."), tok), op="hl", q=ast, d=d, f="f", len=ln, num=num, pre=L("<"), post=L(">"), ell=L("..")))
    return {"id": eid, "cmds": cm, "voc": [L(v) for v in VOC]}
def run(pid):
    ck = fv.Check(pid); exe = fv.build_driver("idxdrv", "asan"); eps = []
    tx = ck.generate("HighlightMC", "HighlightMC6.cfg" if fv.THOROUGH else None)
    ck.mc("HighlightMC")
    eps += [small(r, "g%d" % i, tx[9 * i:9 * i + 9]) for i, r in X.rnds(pid, "g", (len(tx) + 8) // 9)]
    for tag, n, kw in (("h", 700, {}), ("l", 80, {"long": True})):
        eps += [ep(r, "%s%d" % (tag, i), **kw) for i, r in X.rnds(pid, tag, X.q(n, n * 12))]
    for a in range(0, len(eps), 2000): ck.conform("HighlightTrace", exe, eps[a:a + 2000])
    return ck.finish()
NOTE = ("Highlight.tla says which places of a text a query marks (terms, expansions, phrases, spans, boolean combinations), how marked text reads back, and what a list of excerpts must be; HighlightMC checks on every text of up to 5 (6) words and 11 "
        "queries that exactly the correctly painted text is accepted and that unmarked, repeated and overlapping excerpts are not, and its texts are replayed on the real highlighter.  Random documents with several values, odd spacing and long words, random queries of all "
        "kinds, excerpt lengths around every boundary and tags of several lengths follow, also through a multi-searcher, under address and undefined-behaviour sanitizers.")
