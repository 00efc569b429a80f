INIT Init
NEXT Next
CONSTANTS
 MaxNS = 30
 Configs <- Triples
 MaxSnaps = 0
 MaxStreams = 3
INVARIANTS Independent Recorded
CHECK_DEADLOCK FALSE
