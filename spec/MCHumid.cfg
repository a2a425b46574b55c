SPECIFICATION Spec
CONSTANTS NT = 17
 NR = 5
 NZ = 6
INVARIANTS Saturation WetBulb Order Circle SeaLevel Logs Emit
CHECK_DEADLOCK FALSE
