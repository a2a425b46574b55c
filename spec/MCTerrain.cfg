SPECIFICATION Spec
CONSTANTS N = 4
 Heights = {0, 15, 60}
 Extra = 2
INVARIANTS Gradients Convex Lit Emit
CHECK_DEADLOCK FALSE
