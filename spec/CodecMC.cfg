SPECIFICATION Spec
CONSTANTS
  MaxI = 1
  MaxD = 3
  FullI = 6
  FullD = 7
  Emit = TRUE
ACTION_CONSTRAINT EmitIt
INVARIANTS RoundTrip NonEmpty Unsuppressed RoundOK
