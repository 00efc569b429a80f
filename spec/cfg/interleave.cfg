INIT Init
NEXT Next
CONSTANTS
 MaxNS = 30
 Configs <- Pairs
 MaxSnaps = 0
 MaxStreams = 2
INVARIANTS Independent Recorded
CHECK_DEADLOCK FALSE
