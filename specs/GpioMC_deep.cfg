SPECIFICATION Spec
CONSTANTS MaxLen = 6
 NPins = 2
INVARIANTS Exact Alternates Replay Ordered
PROPERTIES Independent
