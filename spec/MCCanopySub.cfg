SPECIFICATION MCSpec
CONSTANTS
 Temps = {228150, 253150, 268150, 273150, 283150}
 Hums = {0, 30000, 70000, 95000, 100000}
 Winds = {0, 1000, 3000, 10000, 100000}
 Albs = {0, 200000, 600000, 1000000}
 Sws = {0, 10000, 1000000, 9000000}
 Loads = {0, 1, 500, 20000, 100000, 200000, 300000}
INVARIANTS NeverNegative SaturatedDark DrierMore SunnierMore DarkerMore WindierMore WithinLoad LongerMore MoreLoadMore ExposedShare
CHECK_DEADLOCK FALSE
