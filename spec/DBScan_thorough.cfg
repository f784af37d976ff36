SPECIFICATION Spec
CONSTANTS MaxN = 5
          Top = 4
          Dim = 1
          MaxMp = 3
          Emit = TRUE
INVARIANTS Sound Right Monotone Refines Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
