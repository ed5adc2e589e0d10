SPECIFICATION Spec
CONSTANTS MaxBuf = 6
 MaxChunk = 4
 MaxFiles = 3
INVARIANTS VerdictExact BrokenNeverValid ScanExact BatchExact
