SPECIFICATION MCSpec
CONSTANTS Depth = 4
          MaxSets = 6
          Emit = TRUE
INVARIANTS Labels Conserves Feasible Emitted
CHECK_DEADLOCK FALSE
