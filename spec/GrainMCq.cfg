SPECIFICATION Spec
CONSTANTS MaxPics = 4 Reach = 2 Seeds = {0, 62288} Bounds = {0, 1, 3}
INVARIANTS Sound
CHECK_DEADLOCK FALSE
