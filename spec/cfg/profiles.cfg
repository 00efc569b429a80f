INIT Init
NEXT Next
CONSTANTS
 MaxNS = 30
 Alpha <- Latin
 MaxLen = 3
 Chains <- ChainList
INVARIANTS Emitted Right
CHECK_DEADLOCK FALSE
