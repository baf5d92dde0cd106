SPECIFICATION Spec
CONSTANTS
  Parts = {1, 2}
  Short = {1}
  MaxJobs = 2
  MaxLen = 5
  Lanes = 1
INVARIANTS Right Held
PROPERTY Returns
