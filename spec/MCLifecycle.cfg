SPECIFICATION MCSpec
CONSTANTS MaxN = 4
          K = 6
INVARIANTS TypeOK InOrder RunCompletes Emit
PROPERTIES RefusalIsNoOp Monotone
CHECK_DEADLOCK FALSE
