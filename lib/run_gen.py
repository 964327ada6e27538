import sys, fv
c = fv.Check("X"); print(len(c.generate(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))); fv.cleanup()
