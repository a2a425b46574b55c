SPECIFICATION MCSpec
CONSTANTS MaxN = 5
          WMax = 10
INVARIANTS Complete NoStale AtEnd Durable
CHECK_DEADLOCK FALSE
