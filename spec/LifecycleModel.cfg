SPECIFICATION Spec
INVARIANTS Bounded Unstarted
PROPERTIES Monotone Final
CHECK_DEADLOCK FALSE
