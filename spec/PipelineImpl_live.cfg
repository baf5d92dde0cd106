SPECIFICATION Spec
CONSTANTS
  N = 2
  C = 1
  Hashers = {"1", "2"}
  Sums = FALSE
INVARIANTS Once Complete InOrder Buffers Clean
PROPERTIES Ends
