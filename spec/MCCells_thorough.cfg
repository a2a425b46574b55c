SPECIFICATION MCSpec
CONSTANTS Cell = {1, 2, 3}
          Weather = {0, 1, 4}
          NoData = 99
          Depth = 5
INVARIANTS OutsideNeverMatters RegionNeverMatters WipingNeverMatters OutsideUntouched
CHECK_DEADLOCK FALSE
