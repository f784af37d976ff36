SPECIFICATION MCSpec
CONSTANTS MaxLen = 6
          Top = 3
          Emit = TRUE
INVARIANTS Cuts Moments Trims Emitted
CHECK_DEADLOCK FALSE
