INIT Init
NEXT Next
INVARIANTS Sound Complete NoRepeats TableInverse HangulInverse
CHECK_DEADLOCK FALSE
