SPECIFICATION Spec
CONSTANTS N = 1
          Submitters = {s1, s2}
          PerSubmitter = 2
          Watch = TRUE
INVARIANTS Limit Mutex WgOk Waited Onlooker NoLost
