CONSTANTS Sizes = {2, 5}  Keys = {1, 2}  MaxLen = 4
SPECIFICATION Spec
INVARIANTS Forgets Enough Keep
POSTCONDITION Written
CHECK_DEADLOCK FALSE
