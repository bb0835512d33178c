SPECIFICATION Spec
CONSTANTS MaxPackets = 3 Payloads <- SomePayloads Stamps <- SomeStamps
INVARIANTS Whole PrefixOnly NoneLost Refused
CHECK_DEADLOCK FALSE
