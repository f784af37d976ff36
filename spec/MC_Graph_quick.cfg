SPECIFICATION MCSpec
CONSTANTS MaxNodes = 4
          MaxLeaves = 3
          Emit = TRUE
INVARIANTS Faithful Sharp Emitted
PROPERTY Progress
CHECK_DEADLOCK FALSE
