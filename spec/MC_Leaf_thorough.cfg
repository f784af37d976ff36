SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
          MaxCount = 5
          Emit = TRUE
INVARIANTS Mass Smooth Spread Emitted
CHECK_DEADLOCK FALSE
