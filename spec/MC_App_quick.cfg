SPECIFICATION MCSpec
CONSTANTS MaxN = 4
          MaxP = 2
          Emit = TRUE
INVARIANTS Bound Counted Once AllDone Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
