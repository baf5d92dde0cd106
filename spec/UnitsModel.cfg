SPECIFICATION Spec
CONSTANT
  Ports = {0, 1, 80, 32768, 65535}
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
