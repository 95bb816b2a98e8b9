CONSTANTS NB = 3
          NU = 2
          Vals = {0, 1}
          Confs <- AllConfs
INIT Init
NEXT Next
INVARIANTS InField Restored AuditExact TamperSeen
CHECK_DEADLOCK FALSE
