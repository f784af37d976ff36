SPECIFICATION MCSpec
CONSTANTS Depth = 6
          Emit = TRUE
INVARIANTS Fifo Lifo IncrInv Emitted
CHECK_DEADLOCK FALSE
