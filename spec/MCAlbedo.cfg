SPECIFICATION MCSpec
CONSTANTS Depth = 4
          Steps = {60, 180, 1440}
          Methods = {"binary", "continuous"}
          Snowfalls = {0, 2500, 5000, 60000}
INVARIANTS InBounds Decays MeltingFaster SplitInvariant
CHECK_DEADLOCK FALSE
