INIT Init
NEXT Next
CONSTANTS
 MaxNS = 30
 Configs <- Singles
 MaxSnaps = 1
 MaxStreams = 2
INVARIANTS Independent Recorded
CHECK_DEADLOCK FALSE
