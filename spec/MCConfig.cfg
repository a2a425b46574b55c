CONSTANTS
  Starts = {0, 60, 180, 1440, 4320}
  Ends = {0, 1440, 1620, 4320, 7200}
  Steps = {15, 2160, 60, 180, 420, 1440, 2880, 7200}
  Freqs = {0, 1440, 2880, 5760}
  Full = FALSE
  NMin = 0
SPECIFICATION Spec
INVARIANTS Idempotent OldMeansNew UserKept LastStep Emit
CHECK_DEADLOCK FALSE
