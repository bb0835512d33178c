SPECIFICATION Spec
CONSTANTS MaxPackets = 2 Payloads <- SomePayloads Stamps <- SomeStamps
INVARIANTS Whole PrefixOnly NoneLost Refused
CHECK_DEADLOCK FALSE
