SPECIFICATION MCSpec
CONSTANTS MaxRows = 4
          Depth = 3
          Emit = TRUE
INVARIANTS TypeOK Answered Emitted
PROPERTY Forward
CHECK_DEADLOCK FALSE
