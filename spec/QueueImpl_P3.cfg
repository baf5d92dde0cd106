SPECIFICATION Spec
CONSTANT Prog <- P3
CONSTANT Cap0 = 1
CONSTANT Spurious = 1
INVARIANT Fifo NoLostWakeup MutexOK
PROPERTY BoundStep Refines NoStarvation
CHECK_DEADLOCK FALSE
