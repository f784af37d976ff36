SPECIFICATION MCSpec
CONSTANTS Depth = 2
          Emit = TRUE
INVARIANTS Whole UserKept OtherKept Emitted
PROPERTIES Stays Quiet Ends
CHECK_DEADLOCK FALSE
