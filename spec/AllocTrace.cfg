SPECIFICATION Spec
INVARIANT Inv
POSTCONDITION Post
CHECK_DEADLOCK FALSE
