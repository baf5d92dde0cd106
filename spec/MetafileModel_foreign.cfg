SPECIFICATION Spec
CONSTANT What = "foreign"
VIEW View
INVARIANTS WrittenIsRead Again OuterFree ReadIsKept Emit
CHECK_DEADLOCK FALSE
