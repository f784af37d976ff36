SPECIFICATION MCSpec
CONSTANTS MaxVars = 2
          MaxLines = 5
          Emit = TRUE
INVARIANTS Meaning Label Emitted
CHECK_DEADLOCK FALSE
