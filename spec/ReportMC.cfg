SPECIFICATION Spec
INVARIANTS Honest Caught
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Sizes = {40, 1201, 20000}
 QPs = {10, 201}
 FTs = {0, 1, 3}
 Limit = 5000
 Verb = 2
