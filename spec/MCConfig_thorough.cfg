CONSTANTS
  Starts = {0, 15, 60, 120, 180, 720, 1440, 2880, 4320}
  Ends = {0, 45, 1440, 1500, 1620, 2880, 4320, 7200, 14400}
  Steps = {10, 15, 60, 120, 180, 300, 360, 420, 720, 1440, 2880, 4320, 7200}
  Freqs = {0, 60, 1440, 2880, 4320, 5760, 14400}
  Full = TRUE
  NMin = 0
SPECIFICATION Spec
INVARIANTS Idempotent OldMeansNew UserKept LastStep Emit
CHECK_DEADLOCK FALSE
