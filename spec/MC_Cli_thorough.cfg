SPECIFICATION MCSpec
CONSTANTS Depth = 3
          Emit = TRUE
INVARIANTS Total Emitted
PROPERTY Only
CHECK_DEADLOCK FALSE
