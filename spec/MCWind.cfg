SPECIFICATION Spec
CONSTANTS Slopes = {0, 10, 45}
 Aspects = {0, 45, 180, 270}
 Dirs = {0, 60, 180, 225, 315}
 Curvs = {0}
INVARIANTS Limits Windward Isotropic Diverted Flat Emit
CHECK_DEADLOCK FALSE
