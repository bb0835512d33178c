SPECIFICATION Spec
CONSTANTS Sizes <- AllSizes Levels = {0, 7, 8, 13, 31}
INVARIANTS RoundTrip ContainerIsFour
CHECK_DEADLOCK FALSE
