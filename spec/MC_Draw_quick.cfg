SPECIFICATION MCSpec
CONSTANTS MaxSide = 5
          Emit = TRUE
INVARIANTS Removable Straight Halves Emitted
CHECK_DEADLOCK FALSE
