SPECIFICATION SafeSpec
CONSTANTS
  N = 4
  C = 2
  Hashers = {"1", "2"}
  Sums = TRUE
INVARIANTS Once Complete InOrder Buffers Clean
