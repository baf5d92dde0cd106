SPECIFICATION Spec
CONSTANT Cap = 3
CONSTANT Initial = 1
CONSTANT MaxGets = 5
INVARIANT PoolInv
PROPERTY OneHolder Served NoLeak
CHECK_DEADLOCK FALSE
