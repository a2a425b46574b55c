SPECIFICATION Spec
CONSTANTS Doys = {1, 15, 45, 90, 110, 140, 188, 215, 235, 255, 280, 320, 2, 31, 59, 60, 79, 81, 100, 120, 160, 172, 173, 200, 227, 228, 244, 266, 300, 335, 355, 365, 366}
 Lats = {0, 23, 45, 67, 90, 91, 113, 137, 150, 157, 158, 170, 180}
 Step = 5000
 Waters = {0, 10000, 50000, 100000, 200000, 500000}
 Viss = {5000, 10000, 50000, 25000, 90000}
 Heights = {0, 250, 500, 1500, 3000, 5000}
 Zeniths = {0, 10000, 30000, 52500, 70000, 80000, 87000, 20000, 45000, 60000, 75000, 85000, 89900}
INVARIANTS Unit Tropics Seasons ClockBounds EastThenWest Mirror Antipode PolarDay Nearest RiseAndSet
 Shares NotMore LowerSunLess HazeDims VapourDims OzoneDims HigherClearer BrightGround SkyView MassOfAir LongWave Emit
CHECK_DEADLOCK FALSE
