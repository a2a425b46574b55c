SPECIFICATION MCSpec
CONSTANTS
 Temps = {213150, 228150, 243150, 253150, 263150, 268150, 271150, 273150, 278150, 283150, 293150}
 Hums = {0, 10000, 30000, 50000, 70000, 85000, 95000, 99000, 100000}
 Winds = {0, 500, 1000, 2000, 3000, 5000, 10000, 100000}
 Albs = {0, 200000, 600000, 1000000}
 Sws = {0, 10000, 1000000, 9000000}
 Loads = {0, 1, 500, 20000, 100000, 200000, 300000}
INVARIANTS NeverNegative SaturatedDark DrierMore SunnierMore DarkerMore WindierMore WithinLoad LongerMore MoreLoadMore ExposedShare
CHECK_DEADLOCK FALSE
