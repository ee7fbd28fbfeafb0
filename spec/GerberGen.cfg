SPECIFICATION Spec
CONSTANTS
  Depth = 30
  Grid <- GridDef
  FullStart = FALSE
  WithHoles = TRUE
INVARIANTS Connected ContourOnlyInRegion
