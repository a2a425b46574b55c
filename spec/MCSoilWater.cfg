SPECIFICATION MCSpec
CONSTANTS K = 6
          EmitK = 4
          Alphabet = {"sun", "hot", "rain", "pour", "snow", "shower"}
INVARIANTS Bounded Balanced Rules Emit
CHECK_DEADLOCK FALSE
