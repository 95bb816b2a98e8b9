CONSTANTS MaxLen = 2
          Truncate = TRUE
INIT Init
NEXT Next
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
