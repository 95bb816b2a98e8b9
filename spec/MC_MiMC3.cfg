CONSTANTS Primes = {5, 7, 11}  MaxRounds = 2  MaxInputs = 2
INIT Init
NEXT Next
INVARIANTS TypeOK SameDF Undo SameChain HashPerm LastMatters
CHECK_DEADLOCK FALSE
