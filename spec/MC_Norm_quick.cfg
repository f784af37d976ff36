SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
          Neg = 2
          Hi = 3
          Emit = TRUE
INVARIANTS Distribution KeepsOrder KeepsRatio Emitted
CHECK_DEADLOCK FALSE
