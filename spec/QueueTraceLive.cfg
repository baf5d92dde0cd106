SPECIFICATION Spec
CONSTANT Liveness = TRUE
POSTCONDITION Post
CHECK_DEADLOCK FALSE
