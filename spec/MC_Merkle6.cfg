CONSTANTS MaxN = 6
          Alphabet = {"a", "b"}
INIT Init
NEXT Next
INVARIANTS Complete Sound Exact Binding
CHECK_DEADLOCK FALSE
