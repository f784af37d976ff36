SPECIFICATION MCSpec
CONSTANTS Depth = 2
          Emit = TRUE
INVARIANTS Total Emitted
PROPERTY Only
CHECK_DEADLOCK FALSE
