SPECIFICATION MCSpec
CONSTANTS MaxRows = 7
          Emit = TRUE
INVARIANTS Sound Emitted
CHECK_DEADLOCK FALSE
