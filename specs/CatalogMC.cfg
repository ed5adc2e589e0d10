SPECIFICATION MSpec
CONSTANTS MaxN = 2
INVARIANTS Described Equipped Drivable Addressed OwnToken
