SPECIFICATION Spec
CONSTANTS Procs = 2
          MaxFolders = 2
          MaxImages = 3
          Emit = TRUE
INVARIANTS Whole Bounded Complete Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
