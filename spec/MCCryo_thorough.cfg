SPECIFICATION MCSpec
CONSTANTS MaxSteps = 9
          FirnMonth = 10
INVARIANTS Conserved NewIsLight FirnIsLight FirnGrowsOnlyThen IceOnlyGrows OldGoneAfterFirnStep
CHECK_DEADLOCK FALSE
