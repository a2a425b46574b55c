SPECIFICATION MCSpec
CONSTANTS Starts <- StartsDef
          Steps = {60, 180, 360, 420, 1440}
          MaxN = 14
INVARIANTS RecordsFollowSchedule Tiling MonthPure BoundsTile OncePerMonth MonthStarts
CHECK_DEADLOCK FALSE
