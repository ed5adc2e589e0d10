SPECIFICATION MSpec
CONSTANTS MaxT = 14
 Zones <- AllZones
INVARIANTS NotPast SameTime
