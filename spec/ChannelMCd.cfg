SPECIFICATION Spec
CONSTANTS N = 7 Cap = 3 Look = 2 Limit = 6 Rec = 7 UsesRec = FALSE
INVARIANTS Ordered Whole Bounded
PROPERTIES Ends Sees
