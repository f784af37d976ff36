SPECIFICATION MCSpec
CONSTANTS Depth = 5
          Objs = {1, 2}
          Emit = TRUE
INVARIANTS TypeOK Stable Emitted
PROPERTY Local
CHECK_DEADLOCK FALSE
