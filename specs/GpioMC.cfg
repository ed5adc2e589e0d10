SPECIFICATION Spec
CONSTANTS MaxLen = 4
 NPins = 2
INVARIANTS Exact Alternates Replay Ordered
PROPERTIES Independent
