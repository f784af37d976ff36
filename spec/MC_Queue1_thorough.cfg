SPECIFICATION MCSpec
CONSTANTS Depth = 9
          MaxN = 3
          Tasks = 5
          Emit = TRUE
INVARIANTS Limit Once Conserving NoHang Emitted
PROPERTY Forward
CHECK_DEADLOCK FALSE
