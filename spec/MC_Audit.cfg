CONSTANTS NB = 12  Audited = 10  Versions = {1, 2}  MaxLen = 5  Blocks = {0, 9, 11}
SPECIFICATION Spec
INVARIANTS Honest Healed Keep
POSTCONDITION Written
CHECK_DEADLOCK FALSE
