SPECIFICATION Spec
CONSTANTS MaxN = 4
          Top = 3
          Dim = 1
          MaxMp = 3
          Emit = TRUE
INVARIANTS Sound Right Monotone Refines Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
