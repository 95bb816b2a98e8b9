INIT Init
NEXT Next
CONSTANTS
  MaxNum = 6
  MaxCnt = 17
  Bytes = {0, 7, 255}
INVARIANTS LongOK ShortOK RandomOK
CHECK_DEADLOCK FALSE
