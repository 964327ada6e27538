"""Shared machinery: build the library from /repo's working tree, run drivers, run TLC,
write evidence.  Python here only generates inputs, moves data and reports; every verdict
about the code is a verdict of TLC on the TLA+ specifications in /verif/spec."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

class ToolError(Exception):
    """The check itself could not give an answer (never reported as a violation)."""

# ------------------------------------------------------------------ build
OBJS = """analysis array bitvector compound_io document except filter fs_store global hash hashset
helper ind index mempool multimapper posh priorityqueue q_boolean q_const_score q_filtered_query q_fuzzy
q_match_all q_multi_term q_parser q_phrase q_prefix q_range q_span q_term q_wildcard ram_store search
similarity sort stopwords store term_vectors field_index lang scanner scanner_mb symbol scanner_utf8""".split()
CFLAGS = ["-std=c99", "-g", "-fno-common", "-w", "-DBZ_NO_STDIO", "-D_FILE_OFFSET_BITS=64", "-DDEBUG",
          "-D_POSIX_C_SOURCE=200112L"]

def _c_sources(c):
    srcs = [os.path.join(c, "src", o + ".c") for o in OBJS]
    # sources a refactoring may have added to src/
    for f in sorted(os.listdir(os.path.join(c, "src"))):
        p = os.path.join(c, "src", f)
        if f.endswith(".c") and p not in srcs:
            srcs.append(p)
    bz = os.path.join(c, "lib/bzlib")
    srcs += [os.path.join(bz, f + ".c") for f in
             "bzlib blocksort compress crctable decompress huffman randtable".split()]
    st = os.path.join(c, "lib/libstemmer_c")
    mk = open(os.path.join(st, "mkinc.mak")).read().replace("\\\n", " ")
    m = re.search(r"^snowball_sources\s*=\s*(.*)$", mk, re.M)
    srcs += [os.path.join(st, f) for f in m.group(1).split()]
    return [s for s in srcs if os.path.exists(s)]

def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build_lib(variant="plain"):
    """Compile every library source of the working tree into an object cache keyed by content
    (source + all headers + flags); returns the archive."""
    c = os.path.join(REPO, "c")
    inc = ["-I" + os.path.join(c, "include"), "-I" + os.path.join(c, "src"),
           "-I" + os.path.join(c, "lib/libstemmer_c/include"), "-I" + os.path.join(c, "lib/bzlib")]
    flags = list(CFLAGS)
    if variant == "asan":
        flags += ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,signed-integer-overflow", "-fno-omit-frame-pointer"]
    h = hashlib.sha256()
    for root, ds, fs in os.walk(c):
        ds.sort()
        if os.path.relpath(root, c).split(os.sep)[0] in ("test", "benchmark", "tools"): continue
        for f in sorted(fs):
            if f.endswith((".h", ".mak")):
                h.update(f.encode()); h.update(open(os.path.join(root, f), "rb").read())
    h.update(" ".join(flags).encode())
    base = h.digest()
    od = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(od, exist_ok=True)
    jobs, objs = [], []
    for s in _c_sources(c):
        k = hashlib.sha256(base + s.encode() + open(s, "rb").read()).hexdigest()[:24]
        o = os.path.join(od, os.path.basename(s)[:-2] + "-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.append((s, o))
    def comp(j):
        s, o = j
        t = "%s.%d.tmp" % (o, os.getpid())
        r = _sh(["gcc"] + flags + inc + ["-c", s, "-o", t])
        if r.returncode: raise ToolError("compile %s failed:\n%s" % (s, r.stdout))
        os.rename(t, o)
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(comp, jobs))
    keep = set(objs)
    key = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    return key, objs, flags, inc, keep

def build_driver(name, variant="plain", extra=(), srcs=None):
    key, objs, flags, inc, keep = build_lib(variant)
    srcs = [os.path.join(HARN, s) for s in (srcs or [name + ".c"])]
    hd = [os.path.join(HARN, f) for f in sorted(os.listdir(HARN)) if f.endswith((".h", ".inc"))]
    k = hashlib.sha256((key + " ".join(extra)).encode() + b"".join(open(s, "rb").read() for s in srcs + hd)).hexdigest()[:20]
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, variant, k))
    if not os.path.exists(exe):
        t = "%s.%d.tmp" % (exe, os.getpid())
        r = _sh(["gcc"] + flags + inc + ["-I" + HARN] + list(extra) + srcs + objs + ["-o", t, "-lm", "-lpthread", "-lz", "-ldl"])
        if r.returncode: raise ToolError("build of driver %s failed:\n%s" % (name, r.stdout))
        os.rename(t, exe)
    return exe

def build_ruby(script):
    """The Ruby extension and library built from REPO's tree, and a wrapper that runs the script on them."""
    compat = [os.path.join(HARN, f) for f in ("ruby_compat.rb", "ruby_compat_h.txt", script)]
    h = hashlib.sha256()
    names = []
    for top in ("c", "ruby"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [d for d in dirs if d not in (".git", "test", "_build")]
            names += [os.path.relpath(os.path.join(root, f), REPO) for f in files]
    names = sorted(n for n in names if os.path.isfile(os.path.join(REPO, n)) and not os.path.islink(os.path.join(REPO, n))
                   and not n.endswith((".o", ".so", ".a", ".log")) and n != "ruby/ext/Makefile" and "/.rake/" not in n)
    if not names: raise ToolError("no sources in " + REPO)
    for n in names: h.update(n.encode() + b"\0" + open(os.path.join(REPO, n), "rb").read() + b"\0")
    for f in compat: h.update(open(f, "rb").read())
    d = os.path.join(BUILD, "ruby-" + h.hexdigest()[:20])
    exe = os.path.join(d, "run.sh")
    if os.path.exists(exe): return exe
    t = "%s.%d.tmp" % (d, os.getpid())
    shutil.rmtree(t, ignore_errors=True)
    try:
        for n in names:
            to = os.path.join(t, n); os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copy(os.path.join(REPO, n), to)
        shutil.copy(compat[0], os.path.join(t, "compat.rb")); shutil.copy(compat[1], os.path.join(t, "compat.h")); shutil.copy(compat[2], os.path.join(t, "drv.rb"))
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "RUBYLIB")}
        env.update(RUBYOPT="-r%s/compat.rb" % t, MAKEFLAGS="-j8 cppflags=-include%s/compat.h" % t, LANG="C.UTF-8", LC_ALL="C.UTF-8")
        r = _sh(["rake", "build"], cwd=os.path.join(t, "ruby"), env=env)
        if r.returncode or not os.path.exists(os.path.join(t, "ruby/ext/ferret_ext.so")): raise ToolError("build of the Ruby extension failed:\n%s" % str(r.stdout)[-3000:])
        with open(os.path.join(t, "run.sh"), "w") as f:
            f.write('#!/bin/sh\nD=$(dirname "$0")\nunset RUBYOPT RUBYLIB\nexport LANG=C.UTF-8 LC_ALL=C.UTF-8\nexec ruby -r"$D/compat.rb" -I"$D/ruby/lib" -I"$D/ruby/ext" "$D/drv.rb"\n')
        os.chmod(os.path.join(t, "run.sh"), 0o755)
        if not os.path.exists(exe): os.rename(t, d)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return exe

# ------------------------------------------------------------------ scratch
_scr = None
def scratch():
    global _scr
    if _scr is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scr = tempfile.mkdtemp(prefix="fv-", dir=base)
    return _scr
def cleanup():
    if _scr: shutil.rmtree(_scr, ignore_errors=True)

# ------------------------------------------------------------------ driver runs
def hx(s):
    if isinstance(s, str): s = s.encode("utf-8", "surrogateescape")
    return s.hex() if s else "-"

def run_episodes(exe, episodes, timeout=60, args=(), per=None, env=None):
    """episodes: list of {"cmds": [str | (str, dict)], ...}.  Each command produces one JSON line.
    Returns for every episode the list of result dicts (a dead process yields {"crash": ...} for
    the command it died in, and the episode ends there)."""
    def norm(c): return c[0] if isinstance(c, tuple) else c
    results = [None] * len(episodes)
    def work(idx):
        todo = list(idx)
        wd = tempfile.mkdtemp(prefix="d", dir=scratch())
        while todo:
            text = []
            for i in todo:
                text.append("#ep %d" % i)
                text += [norm(c) for c in episodes[i]["cmds"]]
            inp = "\n".join(text) + "\n#end\n"
            e = dict(os.environ); e.update(env or {}); e["FV_DIR"] = wd
            e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0")
            p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=e, cwd=wd, start_new_session=True)
            hung = False
            try:
                out, err = p.communicate(inp.encode("utf-8", "surrogateescape"), timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
            cur, rs, done = None, {}, False
            for line in out.decode("utf-8", "replace").split("\n"):
                if line.startswith("#ep "): cur = int(line[4:]); rs[cur] = []
                elif line == "#end": done = True
                elif line and cur is not None:
                    try: rs[cur].append(json.loads(line))
                    except ValueError: rs[cur].append(None)
            if done:
                for i in todo: results[i] = rs[i]
                break
            if cur is None:
                raise ToolError("driver died before its first episode: rc=%s %s" % (p.returncode, err[-2000:]))
            why = "hang" if hung else ("signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode)
            got = rs[cur]
            if got and got[-1] is None: got.pop()
            if len(got) >= len(episodes[cur]["cmds"]):   # died between episodes (cleanup)
                got = got[:len(episodes[cur]["cmds"])]
            got.append({"crash": why, "stderr": err.decode("utf-8", "replace")[-600:]})
            pos = todo.index(cur)
            for i in todo[:pos]: results[i] = rs[i]
            results[cur] = got
            todo = todo[pos + 1:]
        shutil.rmtree(wd, ignore_errors=True)
    n = len(episodes)
    per = per or max(1, (n + NCPU * 2 - 1) // (NCPU * 2))
    chunks = [range(a, min(n, a + per)) for a in range(0, n, per)]
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(work, chunks))
    for i, r in enumerate(results):
        if r is None: raise ToolError("no result for episode %d" % i)
        for j, x in enumerate(r):
            if isinstance(x, dict) and "bad_command" in x:
                raise ToolError("driver rejected command %r: %s" % (episodes[i]["cmds"][j], x))
            if x is None: raise ToolError("unparsable driver output in episode %d at %r" % (i, episodes[i]["cmds"][j]))
    return results

def events(ep, res, crash_op="crash"):
    """Pair each command's event description with the driver's result."""
    ev = []
    for c, r in zip(ep["cmds"], res):
        d = dict(c[1]) if isinstance(c, tuple) else {"op": c}
        if "crash" in r: ev.append({"op": crash_op, "in": d.get("op", ""), "why": r["crash"]}); return ev
        d["err"] = str(r.get("err", "")) if isinstance(r, dict) else ""
        d["r"] = r
        ev.append(d)
    if len(res) > len(ep["cmds"]):
        ev.append({"op": crash_op, "in": "cleanup", "why": res[-1]["crash"]})
    return ev

# ------------------------------------------------------------------ TLC
def _tlc(module, cfg, env=None, workers=NCPU, timeout=600, extra=(), heap="6g", dfs=False):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + meta]
    if dfs: cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
            "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                             cwd=SPEC, errors="replace", start_new_session=True)
        try: out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate()
            raise ToolError("TLC timeout on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out

def _counts(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m: return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def _print_lines(out, tag):
    """PrintT(<<tag, ...>>) lines as TLC prints them (possibly wrapped over several lines)."""
    res, cur = [], None
    for line in out.split("\n"):
        if cur is None and line.startswith('<<"%s"' % tag) or cur is None and line.startswith('<< "%s"' % tag):
            cur = line
        elif cur is not None: cur += " " + line.strip()
        if cur is not None and cur.count("<<") <= cur.count(">>"):
            res.append(cur); cur = None
    return res

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.violations, self.known, self.notes = [], [], [], {}
        self.assumptions = []
        self.kf = load_known(pid)

    # -- exhaustive model checking of the specification itself
    def mc(self, module, cfg=None, timeout=600, extra=(), workers=NCPU, env=None):
        rc, out = _tlc(module, cfg or module + ".cfg", timeout=timeout, extra=list(extra), workers=workers, env=env)
        g, d = _counts(out)
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            raise ToolError("model %s does not check (rc=%d):\n%s" % (module, rc, out[out.find("Error:"):][:1500]))
        if d < 2: raise ToolError("model %s is vacuous" % module)
        self.states += d; self.transitions += g
        self.notes.setdefault("models", []).append({"model": module, "cfg": cfg or module + ".cfg", "states": d, "transitions": g})
        return out

    def mcfail(self, module, cfg, **kw):
        """a variant of the model with a defect built in: the invariants must notice (or they say nothing)"""
        try: self.mc(module, cfg, **kw)
        except ToolError as e:
            if "is violated" in str(e): self.notes.setdefault("defective variants refuted", []).append(cfg); return
            raise
        raise ToolError("the defective variant %s of %s is accepted" % (cfg, module))

    # -- behaviours of the specification, printed by it as JSON, for replay
    def generate(self, module, cfg=None, timeout=600, extra=(), env=None, workers=NCPU, tag="GEN"):
        rc, out = _tlc(module, cfg or module + ".cfg", timeout=timeout, extra=list(extra), env=env, workers=workers)
        g, d = _counts(out)
        res = []
        for line in out.split("\n"):
            if line.startswith('<<"%s", "' % tag):
                s = line[len('<<"%s", "' % tag):]
                s = s[:s.rindex('">>')]
                res.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")))
        if not res: raise ToolError("model %s generated nothing (rc=%d):\n%s" % (module, rc, out[out.find("Error:"):][:1500]))
        self.states += d; self.transitions += g
        self.notes.setdefault("generated", []).append({"model": module, "behaviours": len(res)})
        return res

    # -- traces of the real code, judged by the specification
    def validate(self, module, eps, cfg=None, timeout=800, label="", heap="8g"):
        """eps: list of {"id":..., "ev":[...], ...}; returns rejected list [(ep_index, l, text)]."""
        if not eps: return []
        cfg = cfg or module + ".cfg"
        def once(sub):
            f = os.path.join(scratch(), "trace-%d.ndjson" % time.monotonic_ns())
            with open(f, "w") as fh:
                for e in sub: fh.write(json.dumps(e) + "\n")
            rc, out = _tlc(module, cfg, env={"TRACE_FILE": f}, timeout=timeout, heap=heap)
            os.unlink(f)
            rej = []
            for t in _print_lines(out, "REJECT"):
                m = re.match(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*)>>$', t, re.S)
                if not m: raise ToolError("cannot parse " + t)
                rej.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3)))
            if "Model checking completed. No error has been found" not in out:
                raise ToolError("trace model %s failed (rc=%d):\n%s" % (module, rc, out[out.find("Error:"):][:3000]))
            g, d = _counts(out)
            # every event of every episode (up to its rejection) is one distinct state
            rj = {}
            for a, b, t in rej: rj.setdefault(a, b)
            want = sum(len(e["ev"]) + 1 if i not in rj else rj[i] + 2 for i, e in enumerate(sub))
            if d != want: raise ToolError("trace model %s visited %d states, expected %d\n%s" % (module, d, want, out[-3000:]))
            return rej, g, d
        rej, g, d = once(eps)
        self.states += d; self.transitions += g; self.traces += len(eps)
        self.evals += sum(len(e["ev"]) for e in eps)
        if len(self.samples) < 6:
            e = eps[len(eps) // 2]
            self.samples.append({"spec": module, "episode": e.get("id"), "events": e["ev"][:4], "n_events": len(e["ev"])})
        return sorted(set(rej))

    def report(self, module, ep, l, text, rerun=None):
        """ep: episode dict (with cmds); confirm with rerun() -> rejected? then record."""
        rp = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        ev = ep["ev"][l] if l < len(ep["ev"]) else None
        known = self.match_known(ep, l, text)
        if known:
            if known not in self.known: self.known.append(known)
            return
        p = os.path.join(rp, "%s-%s-%s.json" % (self.pid, re.sub(r"\W+", "_", str(ep.get("id", "ep"))), l))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "spec": module, "episode": ep.get("id"), "event_index": l,
                       "event": ev, "spec_says": text, "commands": ep.get("cmds"), "events": ep["ev"][:l + 1]}, f, indent=1)
        self.violations.append((p, ev, text))

    def match_known(self, ep, l, text):
        for k in self.kf:
            ev = ep["ev"][l] if l < len(ep["ev"]) else {}
            if k["match"] == str(ep.get("id", "")) and k["event"] == l and k["reply"] == ev.get("r") and k.get("err", "") == ev.get("err", ""): return k["what"]
        return None

    # -- the usual pipeline: run episodes on the code, let the spec judge, confirm rejections
    def conform(self, module, exe, episodes, cfg=None, timeout=120, tlc_timeout=800, args=(), mk=None, heap="8g", per=None, env=None):
        mk = mk or (lambda ep, res: events(ep, res))
        def go(eps):
            res = run_episodes(exe, eps, timeout=timeout, args=args, per=per, env=env)
            out = []
            for ep, r in zip(eps, res):
                d = {k: v for k, v in ep.items() if k != "cmds" and not k.startswith("_")}
                d["ev"] = mk(ep, r)
                out.append(d)
            return out
        tr = go(episodes)
        rej = self.validate(module, tr, cfg=cfg, timeout=tlc_timeout, heap=heap)
        if not rej: return tr
        # a rejection counts only if the same episode is rejected again at the same event
        bad = sorted(set(i for i, _, _ in rej))[:40]
        n, seen, left = self.traces, set(), bad
        for _ in range(5):      # one more rejection confirms; behaviour that depends on chance gets five chances
            tr2 = go([episodes[i] for i in left])
            rej2 = self.validate(module, tr2, cfg=cfg, timeout=tlc_timeout, heap=heap)
            seen |= {left[i] for i, _, _ in rej2}
            left = [i for i in left if i not in seen]
            if not left or len(seen) > 3: break
        self.traces = n
        flaky = [i for i in bad if i not in seen]
        for i, l, t in rej:
            if i in seen: self.report(module, dict(tr[i], cmds=[c if isinstance(c, str) else c[0] for c in episodes[i]["cmds"]]), l, t)
        if flaky and not self.violations:
            raise ToolError("rejections not repeated: %s" % [(tr[i].get("id"), [x for x in rej if x[0] == i][:1]) for i in flaky[:3]])
        return tr

    def finish(self, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_checked": self.evals, "samples": self.samples or [{"none": True}]}
        cov.update(self.notes); cov.update(extra or {})
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if os.environ.get("FV_DEBUG"):
            import collections
            cn = collections.Counter((e.get("op"), e.get("in", ""), e.get("err", ""), t[:60]) for p, e, t in self.violations)
            for k, v in cn.most_common(20): print("  #", v, k)
        for p, e, t in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, VERIF)))
            print("   event %s\n   spec says %s" % (json.dumps(e)[:400], " ".join(t.split())[:400]))
        print("%s %s: %d traces, %d events, %d states, %.1fs, %d violations" %
              (self.pid, TIER, self.traces, self.evals, self.states, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0

def load_known(pid):
    """known_findings.jsonl: {"property","kind":"known"|"fixed",...}; only kind=known suppresses."""
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l: continue
            d = json.loads(l)
            if d["kind"] == "known" and d["property"] == pid: out.append(d)
    return out
