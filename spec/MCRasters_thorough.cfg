CONSTANTS MaxBad = 2
SPECIFICATION Spec
INVARIANTS ReadyMeansFaultless FaultIsReported ReadyMeansOneGrid ExtInside Emit
CHECK_DEADLOCK FALSE
