CONSTANTS Keys = {1, 2, 3, 4}  Chals = {1, 2}  FreshKeys = TRUE  MaxSessions = 4
INIT Init
NEXT Next
INVARIANT NoReplay
CHECK_DEADLOCK FALSE
