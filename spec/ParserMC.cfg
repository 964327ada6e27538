SPECIFICATION Spec
CONSTANTS Depth = 3
          GenDepth = 3
          Or = 1
          Pieces = {1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 28, 29}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
