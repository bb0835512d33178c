SPECIFICATION Spec
CONSTANTS MaxN = 4  Faults = TRUE
INVARIANTS Consecutive KeepOld NoConsentNoSuccess Complete PrefixWhenStopped NeverMore Refused DamageNoticed Reconstruction Statistics DiskFullNoticed
PROPERTY Exits
CHECK_DEADLOCK FALSE
