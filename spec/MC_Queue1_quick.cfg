SPECIFICATION MCSpec
CONSTANTS Depth = 7
          MaxN = 3
          Tasks = 4
          Emit = TRUE
INVARIANTS Limit Once Conserving NoHang Emitted
PROPERTY Forward
CHECK_DEADLOCK FALSE
