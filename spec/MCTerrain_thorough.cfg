SPECIFICATION Spec
CONSTANTS N = 4
 Heights = {0, 8, 25, 60, 200}
 Extra = 2
INVARIANTS Gradients Convex Lit Emit
CHECK_DEADLOCK FALSE
