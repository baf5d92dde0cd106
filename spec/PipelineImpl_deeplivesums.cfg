SPECIFICATION Spec
CONSTANTS
  N = 3
  C = 2
  Hashers = {"1"}
  Sums = TRUE
INVARIANTS Once Complete InOrder Buffers Clean
PROPERTIES Ends
