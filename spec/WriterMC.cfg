SPECIFICATION Spec
CONSTANTS
  MaxObj = 4
  EmitP = TRUE
VIEW View
INVARIANTS RightImage Agree Complete Unique
ACTION_CONSTRAINT EmitIt
