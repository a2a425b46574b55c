SPECIFICATION Spec
CONSTANTS NLay = 4
 NCold = 2
 MaxE = 4
 MaxIce = 8
CONSTRAINT Bound
INVARIANTS Conserved Mass Sane
PROPERTY Props
CHECK_DEADLOCK FALSE
