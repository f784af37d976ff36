SPECIFICATION Spec
CONSTANTS MaxW = 2
          MaxH = 2
          Sums = 2
          Instances = 2
          Emit = TRUE
INVARIANTS Grounded Disjoint Cuttable Emitted
CHECK_DEADLOCK FALSE
