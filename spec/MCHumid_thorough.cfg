SPECIFICATION Spec
CONSTANTS NT = 34
 NR = 5
 NZ = 12
INVARIANTS Saturation WetBulb Order Circle SeaLevel Logs Emit
CHECK_DEADLOCK FALSE
