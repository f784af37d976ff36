SPECIFICATION MCSpec
CONSTANTS Depth = 5
          Emit = TRUE
INVARIANTS Function Hues Emitted
PROPERTIES Silent OneSink
CHECK_DEADLOCK FALSE
