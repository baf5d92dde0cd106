SPECIFICATION Spec
CONSTANTS
  N = 3
  Workers = {1, 2}
  Cap = 1
  Cancel = FALSE
INVARIANTS Once NothingLost Discard
PROPERTY Ends
