INIT Init
NEXT Next
CONSTANTS
  Slots = 3
  NChal = 3
  NResp = 2
  MaxProofs = 1
  NeedDistinct = TRUE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
