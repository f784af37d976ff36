SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
          Neg = 3
          Hi = 4
          Emit = TRUE
INVARIANTS Distribution KeepsOrder KeepsRatio Emitted
CHECK_DEADLOCK FALSE
