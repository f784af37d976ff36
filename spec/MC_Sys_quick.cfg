SPECIFICATION MCSpec
CONSTANTS Depth = 4
          Emit = TRUE
INVARIANTS Function Hues Emitted
PROPERTIES Silent OneSink
CHECK_DEADLOCK FALSE
