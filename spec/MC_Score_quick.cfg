SPECIFICATION MCSpec
CONSTANTS Depth = 4
          MaxScores = 3
          Emit = TRUE
INVARIANTS Adds Counted Emitted
CHECK_DEADLOCK FALSE
