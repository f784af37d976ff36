SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
          Top = 2
          Emit = TRUE
INVARIANTS Cuts Moments Trims Emitted
CHECK_DEADLOCK FALSE
