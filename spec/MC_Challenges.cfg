CONSTANTS Hi = 6  Bits = 3
SPECIFICATION Spec
INVARIANT Permitted
PROPERTY Ends
POSTCONDITION AllOutcomes
CHECK_DEADLOCK FALSE
