SPECIFICATION MSpec
CONSTANTS MaxN = 3
INVARIANTS Described Equipped Drivable Addressed OwnToken
