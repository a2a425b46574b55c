SPECIFICATION MCSpec
CONSTANTS Cells = 4
          Ranges = {0, 1000, 2400}
          Offs <- Of
          Amounts <- Am
INVARIANTS Closes NonNeg NoSnowBelowRain OnlyLess Monotone Half RedistOnlySnow ScfOnlySnow WmoRainUntouched Emit
CHECK_DEADLOCK FALSE
