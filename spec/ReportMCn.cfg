SPECIFICATION Spec
INVARIANTS Honest Caught
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Sizes = {40, 1201}
 QPs = {10, 201}
 FTs = {0, 1}
 Limit = 0
 Verb = 1
