SPECIFICATION GSpec
CONSTANTS MaxT = 6
 Zones <- AllZones
