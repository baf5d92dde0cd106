SPECIFICATION Spec
CONSTANT Liveness = FALSE
POSTCONDITION Post
CHECK_DEADLOCK FALSE
