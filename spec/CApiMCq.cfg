SPECIFICATION Spec
CONSTANTS NF = 2 NC = 2 NI = 2 NSends = 3
INVARIANTS Once OnePlace NoErr AtEnd Last
