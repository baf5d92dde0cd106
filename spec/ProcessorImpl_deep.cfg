SPECIFICATION Spec
CONSTANTS
  N = 2
  Workers = {1, 2, 3}
  Cap = 1
  Cancel = FALSE
INVARIANTS Once NothingLost Discard
PROPERTY Ends
