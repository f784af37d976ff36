SPECIFICATION MCSpec
CONSTANTS Depth = 5
          MaxScores = 3
          Emit = TRUE
INVARIANTS Adds Counted Emitted
CHECK_DEADLOCK FALSE
