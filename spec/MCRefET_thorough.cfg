SPECIFICATION MCSpec
CONSTANTS
 Temps = {233150, 243150, 253150, 263150, 268150, 273150, 278150, 283150, 290150, 298150, 305150, 313150}
 Rads = {0, 10000, 15000, 19000, 20000, 21000, 25000, 35000, 50000, 80000, 120000}
 Vpds = {0, 1000, 50000, 200000, 500000}
 Winds = {100, 300, 500, 1000, 2000, 5000, 10000, 20000}
 Gammas = {45000, 66000}
 Stores = {0, 5000, 100000}
 Heights = {100, 500, 1900}
INVARIANTS NeverNegative SunnierMore DrierMore NothingToDrive EnergyLimit GroundTakesPart WithinStore WindierMore LongerMore SlopeRises ProfileFalls
CHECK_DEADLOCK FALSE
