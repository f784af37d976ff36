SPECIFICATION MCSpec
CONSTANTS Depth = 6
          Nodes = {1, 2}
          Slots = {0, 1}
          Emit = TRUE
INVARIANTS LastWriteWins Tickets Emitted
PROPERTY Isolated
CHECK_DEADLOCK FALSE
