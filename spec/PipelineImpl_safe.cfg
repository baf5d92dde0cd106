SPECIFICATION SafeSpec
CONSTANTS
  N = 3
  C = 2
  Hashers = {"1", "2"}
  Sums = FALSE
INVARIANTS Once Complete InOrder Buffers Clean
