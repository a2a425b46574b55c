SPECIFICATION MCSpec
CONSTANTS Depth = 5
          Steps = {30, 60, 180, 720, 1440}
          Methods = {"binary", "continuous"}
          Snowfalls = {0, 2500, 5000, 60000}
INVARIANTS InBounds Decays MeltingFaster SplitInvariant
CHECK_DEADLOCK FALSE
