#!/usr/bin/env python3
"""Build the drivers from /repo's working tree (each check rebuilds what changed anyway)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V]
import fv
from props import crashgen
for f in sorted(os.listdir(fv.HARN)):
    if f.endswith("drv.c"): print(crashgen.build() if f == "crashdrv.c" else fv.build_driver(f[:-2]))
