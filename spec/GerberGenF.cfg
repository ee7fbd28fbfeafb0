SPECIFICATION Spec
CONSTANTS
  Depth = 22
  Grid <- GridDef
  FullStart = TRUE
  WithHoles = TRUE
INVARIANTS Connected ContourOnlyInRegion
