CONSTANTS NB = 2
          NU = 3
          Vals = {0, 1}
          Confs <- SomeConfs
INIT Init
NEXT Next
INVARIANTS InField Restored AuditExact TamperSeen
CHECK_DEADLOCK FALSE
