SPECIFICATION MCSpec
CONSTANTS MaxRows = 3
          Depth = 2
          Emit = TRUE
INVARIANTS TypeOK Answered Emitted
PROPERTY Forward
CHECK_DEADLOCK FALSE
