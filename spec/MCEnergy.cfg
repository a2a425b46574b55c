SPECIFICATION Spec
CONSTANTS NLay = 3
 NCold = 2
 MaxE = 3
 MaxIce = 6
CONSTRAINT Bound
INVARIANTS Conserved Mass Sane
PROPERTY Props
CHECK_DEADLOCK FALSE
