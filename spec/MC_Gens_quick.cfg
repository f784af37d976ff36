SPECIFICATION MCSpec
CONSTANTS MaxRows = 4
          Emit = TRUE
INVARIANTS Sound Emitted
CHECK_DEADLOCK FALSE
