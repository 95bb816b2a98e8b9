CONSTANTS MaxLen = 4  Values = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Memory Loads Keep
POSTCONDITION Written
CHECK_DEADLOCK FALSE
