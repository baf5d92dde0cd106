SPECIFICATION Spec
CONSTANT What = "faults"
VIEW View
INVARIANTS WrittenIsRead Again OuterFree ReadIsKept Emit
CHECK_DEADLOCK FALSE
