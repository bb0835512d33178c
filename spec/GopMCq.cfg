SPECIFICATION Spec
CONSTANTS N = 5
          P = 1
          W = 2
          Look = 1
          Cap = 1
INVARIANTS InRange Ordered Whole Filled Busy
PROPERTY Ends
