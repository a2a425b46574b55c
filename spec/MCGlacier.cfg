SPECIFICATION MCSpec
CONSTANTS Cells = {1, 2, 3}
          Elevs = {20000, 20300, 22000}
          Ices = {0, 120000, 400000}
          Losses = {20000, 130000}
          Firns = {15000}
          Months = 50
INVARIANTS Conserves NonNeg OnlyThick CompleteYears NoYearMissed
CHECK_DEADLOCK FALSE
