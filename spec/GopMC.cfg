SPECIFICATION Spec
CONSTANTS N = 8
          P = 1
          W = 2
          Look = 1
          Cap = 2
INVARIANTS InRange Ordered Whole Filled Busy
PROPERTY Ends
