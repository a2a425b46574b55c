SPECIFICATION MCSpec
CONSTANTS DTs = {30, 60, 180, 360, 720, 1440, 2880}
          Steps = {30, 60, 90, 180, 360, 720, 1440, 2880}
          Lens = {1, 2, 3, 4, 13, 27, 60, 100}
INVARIANTS Disjoint Tiles Conserved Complete Local CoarserRefused AllNaNNone Emit
CHECK_DEADLOCK FALSE
