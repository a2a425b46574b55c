SPECIFICATION MCSpec
CONSTANTS DTs = {60, 180, 720, 1440}
          Steps = {60, 90, 180, 1440, 2880}
          Lens = {1, 2, 3, 27, 60}
INVARIANTS Disjoint Tiles Conserved Complete Local CoarserRefused AllNaNNone Emit
CHECK_DEADLOCK FALSE
