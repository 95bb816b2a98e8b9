SPECIFICATION Spec
CONSTANTS N = 2
 Targets = {0, 1, 2, 3}
 Dirty <- Dirty2
 MaxCrash = 1
INVARIANTS TypeOK PreparedOK MarkOK MarkedOK TruthOK
CHECK_DEADLOCK FALSE
