SPECIFICATION GSpec
CONSTANTS MaxBuf = 6
 MaxChunk = 4
 MaxFiles = 3
