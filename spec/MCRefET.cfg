SPECIFICATION MCSpec
CONSTANTS
 Temps = {243150, 263150, 273150, 283150, 298150, 313150}
 Rads = {0, 10000, 19000, 20000, 25000, 50000, 120000}
 Vpds = {0, 1000, 50000, 200000, 500000}
 Winds = {100, 500, 2000, 5000, 20000}
 Gammas = {45000, 66000}
 Stores = {0, 5000, 100000}
 Heights = {100, 500, 1900}
INVARIANTS NeverNegative SunnierMore DrierMore NothingToDrive EnergyLimit GroundTakesPart WithinStore WindierMore LongerMore SlopeRises ProfileFalls
CHECK_DEADLOCK FALSE
