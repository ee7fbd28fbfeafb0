SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxFiles = 3
  Vecs <- VecsDef
  Guarded = TRUE
  DeepCopy = TRUE
INVARIANTS InUnits Physical Separate
ACTION_CONSTRAINT EmitIt
