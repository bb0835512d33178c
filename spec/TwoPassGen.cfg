SPECIFICATION MSpec
CONSTANTS MaxTus = 9 MaxHidden = 2 Delays = {0,2,4} Emit2 = {0,1} Hist = TRUE
CHECK_DEADLOCK FALSE
