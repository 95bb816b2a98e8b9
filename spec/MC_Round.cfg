CONSTANTS NB = 4  Versions = {1, 2}  MaxLen = 4  
  Queries <- Qs
SPECIFICATION Spec
INVARIANTS Honest Caught Stale Total Keep
POSTCONDITION Written
CHECK_DEADLOCK FALSE
