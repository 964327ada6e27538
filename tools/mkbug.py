"""Confirm a planted change in a scratch copy of /repo and keep it under seeded/.
  mkbug.py ID PROPERTY needs what < demo commands
The change is whatever differs from HEAD in /tmp/pl/repo; the demo commands are driver commands
in which 'text' stands for the hex form of text."""
import json, os, re, shutil, subprocess, sys
V = os.environ.get("FV_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/tmp/pl/repo"
DEMO = """#!/bin/bash
# Replays in.txt with a small driver on the built library and compares with the recorded answers.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=c99 -w -g -DDEBUG -D_POSIX_C_SOURCE=200112L -D_FILE_OFFSET_BITS=64 -I"$repo/c/include" -I"$repo/c/src" -I"$repo/c/lib/libstemmer_c/include" -I"$here" \\
  "$here/DRV.c" "$repo/_build/src/c/libferret.a" -o "$t/drv" WRAPS-lm -lpthread -lz -ldl || exit 9
mkdir "$t/d"; cd "$t/d"
FV_DIR="$t/d" timeout 60 "$t/drv" < "$here/in.txt" 2>/dev/null | sed -E 's/,"msg":"[^"]*"//g' > "$t/out"
cmp "$t/out" "$here/out.txt"
"""
WRAPS = "-Wl," + ",".join("--wrap=" + w for w in ("open", "open64", "creat", "creat64", "write", "read", "close", "rename", "remove", "unlink", "opendir", "frt_micro_sleep")) + " "
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scripts():
    for s in ("build", "test"):
        t = open("/opt/vp/%s.sh" % s).read().replace("/repo", P).replace("/opt/vp/build.sh", "/tmp/pl/build.sh")
        open("/tmp/pl/%s.sh" % s, "w").write(t)
def hexify(text):
    return re.sub(r"'([^']*)'", lambda m: m.group(1).encode().hex() or "-", text)
def main():
    id, prop, needs, what = sys.argv[1:5]
    drv = sys.argv[5] if len(sys.argv) > 5 else "idxdrv"
    if not os.path.exists(P): sh("cp -a /repo " + P)
    scripts()
    d = os.path.join(V, "seeded", id)
    diff = sh(["git", "-C", P, "diff"]).stdout
    if not diff.strip(): sys.exit("no change")
    os.makedirs(d, exist_ok=True)
    for f in [drv + ".c", "drv.h", "drvmain.inc"] + (["idxdrv.c"] if drv == "crashdrv" else []): shutil.copy(os.path.join(V, "harness", f), d)
    inp = sys.stdin.read()
    if inp.strip(): open(d + "/in.txt", "w").write("#ep 0\n" + hexify(inp) + "\n#end\n")
    open(d + "/demo.sh", "w").write(DEMO.replace("DRV.c", drv + ".c").replace("WRAPS", WRAPS if drv == "crashdrv" else "")); os.chmod(d + "/demo.sh", 0o755)
    # expected answers from the unchanged tree
    sh(["git", "-C", P, "stash"])
    r = sh("bash /tmp/pl/build.sh")
    if r.returncode: sys.exit("clean build failed " + r.stdout[-500:])
    open(d + "/out.txt", "w").close()
    t = open(d + "/demo.sh").read()
    gen = t.replace('cmp "$t/out" "$here/out.txt"', 'cp "$t/out" "$here/out.txt"')
    open(d + "/gen.sh", "w").write(gen); print(sh(["bash", d + "/gen.sh"], cwd=P).stdout[-500:]); os.remove(d + "/gen.sh")
    print(open(d + "/out.txt").read()[-900:])
    ok = [sh(["bash", d + "/demo.sh"], cwd=P).returncode for _ in range(3)]
    sh(["git", "-C", P, "stash", "pop"])
    r = sh("timeout -k 5 120 bash /tmp/pl/test.sh /tmp/pl/o.json; pkill -9 -f ruby_compat -P 1")
    o = json.load(open("/tmp/pl/o.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = sorted(st - set(o["passed"]))
    bad = sh(["bash", d + "/demo.sh"], cwd=P)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    good = ok == [0, 0, 0] and not miss and bad.returncode != 0
    print("clean demo", ok, "tests missing", len(miss), miss[:4], "patched demo", bad.returncode, bad.stdout[-200:])
    if not good: shutil.rmtree(d); print("NOT KEPT"); sys.exit(1)
    sh(["git", "-C", P, "checkout", "--", "."]); print("kept", id)
main()
