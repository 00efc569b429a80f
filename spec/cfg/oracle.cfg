INIT Init
NEXT Next
VIEW View
CONSTANTS
 MaxNS = 30
 Depth = 1
 Chunk = 100
INVARIANT Recorded
CHECK_DEADLOCK FALSE
