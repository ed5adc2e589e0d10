SPECIFICATION MSpec
CONSTANTS MaxT = 6
 Zones <- AllZones
INVARIANTS NotPast SameTime
