SPECIFICATION Spec
CONSTANTS Procs = 3
          MaxFolders = 3
          MaxImages = 3
          Emit = TRUE
INVARIANTS Whole Bounded Complete Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
