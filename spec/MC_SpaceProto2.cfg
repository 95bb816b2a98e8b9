INIT Init
NEXT Next
CONSTANTS
  Slots = 3
  NChal = 2
  NResp = 2
  MaxProofs = 2
  NeedDistinct = TRUE
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
