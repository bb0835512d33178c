SPECIFICATION Spec
CONSTANTS N = 4 Cap = 2 Look = 1 Limit = 9 Rec = 2 UsesRec = TRUE
INVARIANTS Ordered Whole Bounded
PROPERTIES Ends Sees
