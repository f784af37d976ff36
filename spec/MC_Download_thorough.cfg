SPECIFICATION MCSpec
CONSTANTS Depth = 3
          Emit = TRUE
INVARIANTS Whole UserKept OtherKept Emitted
PROPERTIES Stays Quiet Ends
CHECK_DEADLOCK FALSE
