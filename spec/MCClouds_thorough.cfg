CONSTANTS Depth = 3
          Values = {0}
SPECIFICATION Spec
VIEW View
INVARIANTS NeverWithout FirstApplicable OnlyOffered Emit
CHECK_DEADLOCK FALSE
