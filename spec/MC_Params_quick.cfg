SPECIFICATION MCSpec
CONSTANTS Depth = 4
          Objs = {1, 2}
          Emit = TRUE
INVARIANTS TypeOK Stable Emitted
PROPERTY Local
CHECK_DEADLOCK FALSE
