SPECIFICATION MSpec
CONSTANTS MaxTus = 4 MaxHidden = 2 Delays = {0,1,2,3} Emit2 = {0,1} Hist = FALSE
INVARIANTS NeverBeyond Served RingFits CodesAll
CHECK_DEADLOCK FALSE
