SPECIFICATION MCSpec
CONSTANTS Depth = 6
          Temps = {260000, 273149, 273150, 273151, 275000, 290000}
          StepSet = {60, 180, 1440}
INVARIANTS Balance TopFirst ZeroBelow Monotone Splits
CHECK_DEADLOCK FALSE
