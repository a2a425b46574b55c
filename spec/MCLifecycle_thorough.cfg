SPECIFICATION MCSpec
CONSTANTS MaxN = 6
          K = 8
INVARIANTS TypeOK InOrder RunCompletes Emit
PROPERTIES RefusalIsNoOp Monotone
CHECK_DEADLOCK FALSE
