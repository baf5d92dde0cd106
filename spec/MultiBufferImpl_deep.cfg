SPECIFICATION Spec
CONSTANTS
  Parts = {1, 2}
  Short = {1}
  MaxJobs = 3
  MaxLen = 5
  Lanes = 3
INVARIANTS Right Held
PROPERTY Returns
