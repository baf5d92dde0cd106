SPECIFICATION Spec
CONSTANT What = "doubles"
VIEW View
INVARIANTS WrittenIsRead Again OuterFree ReadIsKept Emit
CHECK_DEADLOCK FALSE
