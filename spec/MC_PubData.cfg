CONSTANTS MaxLen = 2
          Truncate = FALSE
INIT Init
NEXT Next
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
