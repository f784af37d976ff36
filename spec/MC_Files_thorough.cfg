SPECIFICATION MCSpec
CONSTANTS MaxVars = 3
          MaxLines = 7
          Emit = TRUE
INVARIANTS Meaning Label Emitted
CHECK_DEADLOCK FALSE
