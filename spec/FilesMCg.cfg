SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxFiles = 3
  Vecs <- VecsDef
  Guarded = FALSE
  DeepCopy = TRUE
INVARIANTS InUnits Physical Separate
