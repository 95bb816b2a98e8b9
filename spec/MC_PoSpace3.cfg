SPECIFICATION Spec
CONSTANTS N = 3
 Targets = {1, 2, 7}
 Dirty <- Dirty3
 MaxCrash = 0
INVARIANTS TypeOK PreparedOK MarkOK MarkedOK TruthOK
CHECK_DEADLOCK FALSE
