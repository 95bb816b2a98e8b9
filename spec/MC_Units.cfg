CONSTANTS B = 4
          MaxLen = 6
INIT Init
NEXT Next
INVARIANTS PadStrip SplitJoin PadIsPerUnit XorLaw
CHECK_DEADLOCK FALSE
