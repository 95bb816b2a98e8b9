CONSTANT Max = 40
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
