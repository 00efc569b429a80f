INIT Init
NEXT Next
VIEW View
CONSTANTS
 MaxNS = 30
 Judge = "C10"
INVARIANTS Valid Follows
CHECK_DEADLOCK FALSE
