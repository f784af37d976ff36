SPECIFICATION Spec
CONSTANTS Vars = 5
          Clusters = 2
          TNum = 1
          TDen = 2
INVARIANTS Sound Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
