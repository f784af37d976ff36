SPECIFICATION MCSpec
CONSTANTS Elems = 4
          Depth = 3
          Cell = 3
          Emit = TRUE
INVARIANTS Disjoint Statistic Emitted
CHECK_DEADLOCK FALSE
