SPECIFICATION Spec
INVARIANTS Honest Caught
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 Sizes = {40, 1201}
 QPs = {10, 201}
 FTs = {0, 1}
 Limit = 5000
 Verb = 2
