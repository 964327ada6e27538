import sys, fv
c = fv.Check("X"); print(c.mc(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)[-600:]); fv.cleanup()
