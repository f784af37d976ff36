SPECIFICATION MCSpec
CONSTANTS MaxNodes = 4
          MaxLeaves = 3
          MaxFan = 2
          Emit = TRUE
INVARIANTS WF Marginal MapIsBest Euler WeightSlope ScopeSound Emitted
CHECK_DEADLOCK FALSE
