SPECIFICATION MCSpec
CONSTANTS MaxSide = 9
          Emit = TRUE
INVARIANTS Removable Straight Halves Emitted
CHECK_DEADLOCK FALSE
