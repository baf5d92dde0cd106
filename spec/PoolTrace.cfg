SPECIFICATION Spec
CONSTANT Liveness = TRUE
INVARIANT PoolInv
POSTCONDITION Post
CHECK_DEADLOCK FALSE
