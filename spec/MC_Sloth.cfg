INIT Init
NEXT Next
CONSTANTS
  MaxP = 250
  MaxT = 3
INVARIANTS InRange Inverse Forward JacobiOK Permutation
CHECK_DEADLOCK FALSE
