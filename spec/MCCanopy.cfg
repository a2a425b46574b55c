SPECIFICATION MCSpec
CONSTANTS Depth = 3
          Snows = {0, 3, 40000, 400000}
          Temps = {260000, 273151, 290000}
          Lais = {0, 100, 20000, 83000}
          Sublims = {0, 900}
INVARIANTS Conserved Bounded
CHECK_DEADLOCK FALSE
