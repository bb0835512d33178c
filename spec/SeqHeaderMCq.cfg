SPECIFICATION Spec
CONSTANTS Sizes <- FewSizes Levels = {7, 8}
INVARIANTS RoundTrip ContainerIsFour
CHECK_DEADLOCK FALSE
