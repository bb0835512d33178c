SPECIFICATION Spec
CONSTANTS MaxPics = 6 Reach = 3 Seeds = {0, 62288, 7} Bounds = {0, 1, 2, 3, 6}
INVARIANTS Sound
CHECK_DEADLOCK FALSE
