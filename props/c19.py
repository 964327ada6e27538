import fv, random
from props import idxcommon as X
from fv import hx
def c(cmd, **ev): return (cmd, ev)
B = lambda s: list(s.encode("utf-8", "surrogateescape"))
VOC = ["a", "b", "c", "ab", "abc", "abd", "Ab", "A", "cat", "cats", "Cat", "cot", "email", "e", "mail", "the", "and", "1", "2", "10", "3.5", "20", "a:b", "x*", "dog", "x::y", "e-mail", "été", "AND", "f"]
STOP = ["the", "and"]
AN = {"ws": [{"k": "ws"}], "wslc": [{"k": "ws"}, {"k": "lc"}], "ltlc": [{"k": "lt"}, {"k": "lc"}],
      "std": [{"k": "std"}, {"k": "lc"}, {"k": "stop", "w": [B(w) for w in STOP]}, {"k": "hyphen"}]}
FS = ["f", "g", "h"]
def esc(r, w, force=":()[]{}!\"~^|<>=*?+-\\ \t"):
    return "".join("\\" + ch if ch in force or r.random() < .03 and ch != "\\" else ch for ch in w)
def word(r):
    x = r.random()
    w = r.choice(VOC) if x < .85 else r.choice(["o'x", "cat.dog", "a-the-b", "a_b", "the.cat", "zz", "ca", "e-mail-a", "AT&T", "a1b", "NOT", "OR", "REQ", "C++", "a b", "-a", "été-x"])
    return esc(r, w) if r.random() < .9 else w.replace(" ", "")
def num(r): return r.choice(["1", "2", "3", "0.5", ".5", "10", "0.25", "2.5", "0.7", "0.9", "0"])
def sp(r): return r.choice(["", "", " ", "  ", "\t"])
def bare(r):
    return word(r)
def atom(r, d):
    x = r.random()
    if x < .34: return word(r)
    if x < .40: return word(r) + sp(r) + "~" + (sp(r) + num(r) if r.random() < .7 else "")
    if x < .50:
        w = r.choice(["a", "c", "ca", "", "A", "e", "C", "x"]); return esc(r, w) + r.choice(["*", "?", "*t", "?t", "**", "*?", "?*", "??", "a*b*"]) if r.random() < .9 else "*"
    if x < .64:
        n = r.choice([0, 1, 1, 2, 2, 2, 3, 4, 5]); ws = []
        for i in range(n):
            y = r.random()
            if y < .15: ws.append("<>")
            elif y < .35 and i: ws.append("|" + sp(r) + word(r))
            else: ws.append(word(r))
        return '"' + sp(r) + " ".join(ws) + sp(r) + '"' + (sp(r) + "~" + r.choice(["0", "1", "2", "3", "5", "1", "x"]) if r.random() < .3 else "")
    if x < .76:
        a, b = r.choice(["a", "b", "c", "A", "1", "2", "10", "cat", "abc"]), r.choice(["c", "d", "e", "cats", "Z", "3", "20", "10", "1", "zz", "f"]); y = r.randrange(12)
        return [r.choice("[{") + sp(r) + a + " " + b + sp(r) + r.choice("]}"), "<" + sp(r) + a + sp(r) + r.choice("]}"), r.choice("[{") + a + sp(r) + ">", "<" + sp(r) + a, "<=" + sp(r) + a, ">=" + sp(r) + a, ">" + sp(r) + a][min(y, 6) if y < 7 else 0]
    if x < .90 and d > 0:
        f = r.choice(["f", "g", "h", "f|g", "g|h", "*", "zz", "f|zz", "f|g|h", "h|f", "f | g"]); return f + sp(r) + ":" + sp(r) + atom(r, d - 1)
    if d > 0: return "(" + sp(r) + (clauses(r, d - 1) if r.random() < .93 else "") + sp(r) + ")"
    return word(r)
def boosted(r, d): return atom(r, d) + (sp(r) + "^" + sp(r) + num(r) if r.random() < .15 else "")
def clauses(r, d):
    out = ""
    for i in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
        if i: out += r.choice([" ", " ", " ", " AND ", " && ", "&&", " OR ", "||", " || ", " AND ", "\t"])
        out += r.choice(["", "", "", "", "+", "-", "!", "NOT ", "REQ ", "+ ", "- "]) + boosted(r, d)
    return out
SOUP = ["a", "b", "cat", " ", " ", " ", "AND", "OR", "NOT", "REQ", "+", "-", "!", "(", ")", "[", "]", "{", "}", "\"", "~", "^", "|", "<", ">", "=", "*", "?", "&", "&&", "||", ":", "::", "\\", "f:", "g:", "*:", "<>", "1", "2", "0.5", "the", "a*", "?b", "zz:", "\"a b\"", "(a)", "[a c]", "[c a]", "\t", "\n", "f|g:", ">=", "<=", "~0.5", "^2", "é", "e-mail", "\"<>|a\""]
def soup(r): return "".join(r.choice(SOUP) + (" " if r.random() < .3 else "") for _ in range(r.choice([1, 2, 3, 5, 8, 14])))
def junk(r): return bytes(r.choice([r.randrange(1, 256), r.choice(b"ab()[]{}\"~^|<>=*?+-\\: "), 97]) for _ in range(r.choice([1, 2, 4, 8, 20, 60]))).decode("utf-8", "surrogateescape")
def longw(r):
    n = r.choice([120, 250, 253, 254, 255, 256, 257, 300, 520]); u = r.choice(["a", "b", "::", "a::", "\\-", "Q"]); w = (u * n)[:n * 2] if u != "a" else u * n
    w = r.choice([w, "a" * r.randrange(3) + w]); w2 = r.choice(["cat", "b" * n, "a*", "dog"])
    f = r.choice(["%s", "%s %s2", "f:%s %s2", "%s~0.5 %s2", "\"%s %s2\"", "[%s %s2]", "%s* %s2", "%s:a", "a^%s %s2", "<%s %s2", "%s AND %s2", "(%s", "\"%s\"~%s2", "f|%s:%s2", "A%s*", "%s?"])
    return f.replace("%s2", w2).replace("%s", w)
def strings(r, kind):
    if kind == "v": return clauses(r, r.choice([1, 2, 3]))
    if kind == "s": return soup(r)
    if kind == "j": return junk(r)
    if kind == "l": return longw(r)
    s = clauses(r, 2); i = r.randrange(len(s) + 1)     # nearly valid
    return s[:i] + r.choice(SOUP) + s[i + r.choice([0, 0, 1]):]
def setup(r, docs=None):
    cm = [c("store 0 ram -", op="x"), c("create 0 1 3 0 0", op="x"), c("wopen 0 0 10 1000 2147483647 128 16 1 0 0", op="x")]
    docs = docs or [[[f, [r.choice(VOC[:29]) for _ in range(r.choice([1, 2, 3, 5, 8]))]] for f in FS if r.random() < .8] for _ in range(r.choice([3, 6, 12, 25]))]
    for d in docs: cm.append(c("add 0 1 %d %s" % (len(d), " ".join("%s 1 1 %s" % (hx(f), hx(" ".join(ws))) for f, ws in d)), op="x"))
    cm += [c("wclose 0", op="x"), c("ropen 0 0", op="docs", docs=[[[B(f), [B(w) for w in ws]] for f, ws in d] for d in docs]), c("sopen 0 0", op="x")]
    return cm
def parser(r, k, forced={}):
    o = {"or": r.randrange(2), "wl": r.randrange(2), "clean": int(r.random() < .3), "handle": int(r.random() < .3), "any": int(r.random() < .3), "kw": int(r.random() < .8), "typed": int(r.random() < .3), "slop": r.choice([0, 0, 0, 1, 3])}
    o.update(forced)
    fs = list(FS); r.shuffle(fs); df = [f for f in fs if r.random() < .6] or [fs[0]]; tk = [f for f in fs if r.random() < .7]
    dan = r.choice(list(AN)); per = [(f, r.choice(list(AN))) for f in FS if r.random() < .25]
    tall = int(r.random() < .15); tk = [] if tall else tk
    o2 = dict(o, tokall=tall, all=[B(f) for f in fs], tok=[B(f) for f in tk], dan=AN[dan], an=[[B(f), AN[a]] for f, a in per]); o2["def"] = [B(f) for f in df]
    return c("qp %d %d %d %d %d %d %d %d %d %s %d %s" % (k, o["or"], o["wl"], o["clean"], o["handle"], o["any"], o["kw"], o["typed"], o["slop"], ",".join([dan] + ["%s:%s" % p for p in per]), len(fs), " ".join("%s %d %d" % (hx(f), f in df, 2 if tall else f in tk) for f in fs)), op="qp", a=k, c=o2)
def parse(k, s): return c("parse 0 %d %s" % (k, hx(s)), op="parse", k=k, s=B(s), mayerr=1)
def ep(r, eid, kinds, n=40):
    cm = setup(r); np = r.choice([1, 2, 3]); cm += [parser(r, k) for k in range(np)]
    for _ in range(n): cm.append(parse(r.randrange(np), strings(r, r.choice(kinds))))
    return {"id": eid, "cmds": cm}
def run(pid):
    ck = fv.Check(pid); exe = fv.build_driver("idxdrv", "asan"); eps = []
    tx = ck.generate("ParserMC"); rn = random.Random(fv.SEED)
    ck.mc("ParserMC", "ParserMCand.cfg")
    if fv.THOROUGH: tx += ck.generate("ParserMC", "ParserMC4.cfg", timeout=900)
    else: tx = rn.sample(tx, 5000)
    for rep in range(X.q(1, 2)):
        for i in range(0, len(tx), 50):
            cm = setup(rn, [[["f", ["a", "b"]], ["g", ["a"]]], [["g", ["a", "b"]]], [["f", ["cat", "b", "a"]], ["h", ["b"]]], [["f", ["cab", "x"]], ["g", ["b"]]], [["h", ["a", "a"]]]])
            cm += [parser(rn, k, {"clean": k, "handle": k} if rn.random() < .7 else {}) for k in (0, 1)]
            cm += [parse(int(rn.random() < .2), bytes(t).decode()) for t in tx[i:i + 50]]
            eps.append({"id": "gen%d-%d" % (rep, i), "cmds": cm})
    for tag, kinds, n, m in (("v", "v", 300, 40), ("n", "nvs", 150, 40), ("j", "js", 60, 40), ("l", "lvv", 60, 6)):
        eps += [ep(r, "%s%d" % (tag, i), kinds, m) for i, r in X.rnds(pid, tag, X.q(n, n * 12))]
    for a in range(0, len(eps), 2000): ck.conform("ParserTrace", exe, eps[a:a + 2000])
    return ck.finish()
NOTE = ("Parser.tla is the query language in TLA+: the words, escapes and operators of a string, a recursive descent over the grammar (clauses, operators, boosts, groups, field lists, phrases with alternatives and "
        "placeholders, fuzzy words, patterns, all range forms) and the analysis of every word by the field's own chain, giving a query of Query.tla.  ParserMC checks on every sequence of up to 3 (thorough 4) of 26 (16) tokens that groups, "
        "NOT, AND, OR, boosts and field prefixes mean what a reader expects, and its strings are replayed on the real parser together with generated valid, nearly valid, token-soup, byte-junk and over-long strings under random "
        "parser configurations; the documents matched and the boosts of all parts are compared with the specification, invalid strings must be refused (or handled, where the parser is told to), under address and undefined-behaviour sanitizers.")
