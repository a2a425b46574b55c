SPECIFICATION Spec
CONSTANTS FirstYear = 2019
          LastYear = 2020
          Steps = {60, 180, 420, 1440, 7200, 40320, 44640, 525600, 527040}
INVARIANTS Roundtrip Bounds
PROPERTIES FlagsOk
CHECK_DEADLOCK FALSE
