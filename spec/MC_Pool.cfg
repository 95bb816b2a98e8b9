CONSTANTS NB = 3
          NU = 2
          Vals = {0, 1}
          Confs <- PoolConfs
          Workers = {wa, wb}
SYMMETRY Symm
INIT Init
NEXT Next
INVARIANT Result
CHECK_DEADLOCK FALSE
