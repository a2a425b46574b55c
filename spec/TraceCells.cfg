SPECIFICATION TSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
