SPECIFICATION Spec
CONSTANTS
  MaxObj = 2
  EmitP = TRUE
INVARIANTS SameAsLayer LastDecides
ACTION_CONSTRAINT EmitIt
