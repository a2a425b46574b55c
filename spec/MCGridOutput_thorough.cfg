SPECIFICATION MCSpec
CONSTANTS Starts <- StartsDef
          Steps = {30, 60, 90, 180, 360, 420, 1440}
          MaxN = 40
INVARIANTS RecordsFollowSchedule Tiling MonthPure BoundsTile OncePerMonth MonthStarts
CHECK_DEADLOCK FALSE
