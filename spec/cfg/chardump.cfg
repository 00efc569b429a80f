INIT Init
NEXT Next
CONSTANTS
 MaxNS = 30
 Kinds = {"ccc", "mark", "assigned", "canon", "compat", "cjk", "nfd", "nfkd", "nfc", "nfkc", "ss", "var", "q0", "q1", "q2", "q3", "q4", "q5", "f0", "f1", "f2", "f3", "f4", "f5", "lead", "trail", "leadq", "prec", "foll"}
INVARIANTS Agrees VersionAgrees
CHECK_DEADLOCK FALSE
