SPECIFICATION MCSpec
CONSTANTS MaxN = 7
          WMax = 14
INVARIANTS Complete NoStale AtEnd Durable
CHECK_DEADLOCK FALSE
