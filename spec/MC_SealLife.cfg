CONSTANTS MaxLen = 5  MaxDepth = 3  Confs = {1, 2}
SPECIFICATION Spec
INVARIANTS Own Keep
POSTCONDITION Written
CHECK_DEADLOCK FALSE
