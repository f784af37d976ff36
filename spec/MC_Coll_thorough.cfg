SPECIFICATION MCSpec
CONSTANTS Depth = 8
          Emit = TRUE
INVARIANTS Fifo Lifo IncrInv Emitted
CHECK_DEADLOCK FALSE
