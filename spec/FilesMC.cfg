SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxFiles = 3
  Vecs <- VecsDef
  Guarded = TRUE
  DeepCopy = TRUE
INVARIANTS InUnits Physical Separate
ACTION_CONSTRAINT EmitIt
