SPECIFICATION Spec
CONSTANTS Slopes = {0, 10, 45}
 Aspects = {0, 45, 90, 135, 180, 225, 270, 315}
 Dirs = {0, 30, 45, 60, 105, 180, 225, 270, 315, 345}
 Curvs = {0}
INVARIANTS Limits Windward Isotropic Diverted Flat Emit
CHECK_DEADLOCK FALSE
