SPECIFICATION Spec
CONSTANTS N = 5 Cap = 2 Look = 1 Limit = 4 Rec = 5 UsesRec = TRUE
INVARIANTS Ordered Whole Bounded
PROPERTIES Ends Sees
