SPECIFICATION Spec
CONSTANTS Doys = {1, 2, 31, 59, 60, 79, 81, 100, 120, 160, 172, 173, 200, 227, 228, 244, 266, 300, 335, 355, 365, 366}
 Lats = {0, 23, 45, 67, 90, 91, 113, 137, 150, 157, 158, 180}
 Step = 15000
 Waters = {0, 50000, 200000, 500000}
 Viss = {5000, 25000, 90000}
 Heights = {0, 500, 1500, 3000, 5000}
 Zeniths = {0, 20000, 45000, 60000, 75000, 85000, 89900}
INVARIANTS Unit Tropics Seasons ClockBounds EastThenWest Mirror Antipode PolarDay Nearest RiseAndSet
 Shares NotMore LowerSunLess HazeDims VapourDims OzoneDims HigherClearer BrightGround SkyView MassOfAir LongWave Emit
CHECK_DEADLOCK FALSE
