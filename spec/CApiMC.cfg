SPECIFICATION Spec
CONSTANTS NF = 2 NC = 2 NI = 3 NSends = 4
INVARIANTS Once OnePlace NoErr AtEnd Last
