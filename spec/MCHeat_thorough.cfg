SPECIFICATION Spec
CONSTANTS MaxN = 4
 Temps = {0, 2, 5}
 MaxMoves = 8
INVARIANTS Conserved Bounded OneSided Emit
CHECK_DEADLOCK FALSE
