SPECIFICATION Spec
CONSTANTS Depth = 4
          GenDepth = 4
          Or = 1
          Pieces = {1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20, 21}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
