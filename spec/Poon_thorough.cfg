SPECIFICATION Spec
CONSTANTS MaxW = 3
          MaxH = 2
          Sums = 2
          Instances = 1
          Emit = TRUE
INVARIANTS Grounded Disjoint Cuttable Emitted
CHECK_DEADLOCK FALSE
