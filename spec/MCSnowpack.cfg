SPECIFICATION MCSpec
CONSTANTS K = 4
          EmitK = 3
          Alphabet = {"cold", "snow", "heavy", "mixed", "rain", "icy", "warm", "hot", "windy", "frost"}
INVARIANTS Conserved NonNegative CapacityOK Layered BarePasses Emit
CHECK_DEADLOCK FALSE
