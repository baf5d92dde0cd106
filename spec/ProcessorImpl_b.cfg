SPECIFICATION Spec
CONSTANTS
  N = 3
  Workers = {1, 2}
  Cap = 2
  Cancel = TRUE
INVARIANTS Once NothingLost Discard
PROPERTY Ends
