SPECIFICATION MCSpec
CONSTANTS
 Sands = {0, 1500, 3000, 4500, 6000, 8000, 10000}
 Clays = {0, 1000, 2000, 3500, 5000, 10000}
 Wets = {1, 5, 20, 50, 80, 100}
 Deltas = {0, 500, 2000, 10000, 60000, 200000, 500000, 1500000, 3000000, 9000000, 15000000, 20000000}
 Depths = {0, 30000, 90000, 400000, 3000000}
 Scales = {0, 100000, 1000000}
INVARIANTS Textures SandDries ColderLessLiquid ThawedAllLiquid HeatIsStored FreezingDelays Conducts Covering Opens LayerBetween
CHECK_DEADLOCK FALSE
