SPECIFICATION Spec
CONSTANTS MaxBuf = 9
 MaxChunk = 6
 MaxFiles = 4
INVARIANTS VerdictExact BrokenNeverValid ScanExact BatchExact
