SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxFiles = 3
  Vecs <- VecsDef
  Guarded = TRUE
  DeepCopy = FALSE
INVARIANTS InUnits Physical Separate
