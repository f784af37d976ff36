SPECIFICATION MCSpec
CONSTANTS Elems = 4
          Depth = 4
          Cell = 6
          Emit = TRUE
INVARIANTS Disjoint Statistic Emitted
CHECK_DEADLOCK FALSE
