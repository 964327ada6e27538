#!/usr/bin/env python3
"""replay.py <replay.json> <driver>: run the recorded commands again and print the last replies."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
import fv
d = json.load(open(sys.argv[1])); exe = fv.build_driver(sys.argv[2], variant=sys.argv[3] if len(sys.argv) > 3 else "plain")
n = int(sys.argv[4]) if len(sys.argv) > 4 else 5
cmds = [c if isinstance(c, str) else c[0] for c in d["commands"]]
inp = "#ep 1\n" + "\n".join(cmds) + "\n#end\n"
wd = fv.scratch()
r = subprocess.run([exe], input=inp.encode("utf-8", "surrogateescape"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, FV_DIR=wd, ASAN_OPTIONS="detect_leaks=0"), cwd=wd)
out = r.stdout.decode("utf-8", "replace").split("\n")
for c, o in list(zip(cmds, out[1:]))[-n:] if len(sys.argv) <= 5 else list(zip(cmds, out[1:]))[int(sys.argv[5]) - n:int(sys.argv[5])]: print(">", c[:300], "\n  ", o[:600])
print("rc", r.returncode, r.stderr.decode("utf-8", "replace")[-3000:])
fv.cleanup()
