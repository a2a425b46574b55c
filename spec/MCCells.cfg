SPECIFICATION MCSpec
CONSTANTS Cell = {1, 2, 3}
          Weather = {0, 1}
          NoData = 99
          Depth = 3
INVARIANTS OutsideNeverMatters RegionNeverMatters WipingNeverMatters OutsideUntouched
CHECK_DEADLOCK FALSE
