SPECIFICATION MCSpec
CONSTANTS
 Sands = {0, 3000, 6000, 10000}
 Clays = {0, 2000, 5000, 10000}
 Wets = {5, 50, 100}
 Deltas = {0, 2000, 60000, 500000, 3000000, 20000000}
 Depths = {0, 30000, 90000, 400000, 3000000}
 Scales = {0, 100000, 1000000}
INVARIANTS Textures SandDries ColderLessLiquid ThawedAllLiquid HeatIsStored FreezingDelays Conducts Covering Opens LayerBetween
CHECK_DEADLOCK FALSE
