CONSTANTS NB = 2
          NU = 2
          Vals = {0, 1}
          Confs <- PoolConfs
          Workers = {wa, wb}
SPECIFICATION Spec
INVARIANT Result
PROPERTY Finishes
CHECK_DEADLOCK FALSE
