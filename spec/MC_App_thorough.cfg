SPECIFICATION MCSpec
CONSTANTS MaxN = 6
          MaxP = 3
          Emit = TRUE
INVARIANTS Bound Counted Once AllDone Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
