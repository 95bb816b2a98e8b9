SPECIFICATION Spec
CONSTANT MaxBits = 15
INVARIANTS PackOK NatOK InverseOK
CHECK_DEADLOCK FALSE
