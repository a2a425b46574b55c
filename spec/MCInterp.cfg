SPECIFICATION MCSpec
CONSTANTS
 N = 2
 Zs = {100, 170}
 Ds <- Vals
 Xs = {0, 30}
 Lapses <- Lap1
 Methods = {"regression", "fixed", "fractional", "adjustment_factor"}
INVARIANTS NoData WeightsSumToOne NearerWeighsMore Exact Linear Translation MissingIgnored InRange OneStationNoTrend Level
CHECK_DEADLOCK FALSE
