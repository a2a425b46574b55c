CONSTANTS N = 3
          Inst = {1, 2, 3}
          Depth = 9
          Leak = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS ResultsAreAFunction OwnData Emit
CHECK_DEADLOCK FALSE
