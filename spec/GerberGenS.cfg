SPECIFICATION Spec
CONSTANTS
  Depth = 14
  Grid <- GridDef
  FullStart = FALSE
  WithHoles = FALSE
INVARIANTS Connected ContourOnlyInRegion
