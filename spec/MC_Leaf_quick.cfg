SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
          MaxCount = 3
          Emit = TRUE
INVARIANTS Mass Smooth Spread Emitted
CHECK_DEADLOCK FALSE
