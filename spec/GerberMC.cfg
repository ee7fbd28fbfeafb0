SPECIFICATION Spec
CONSTANTS
  Coords = {0, 3, 5}
  Offsets = {0, 3}
  MaxContour = 2
  Emit = TRUE
  Funcs = {"", "G01", "G02", "G03"}
  Quads = {"multi-quadrant", "single-quadrant"}
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitIt
INVARIANTS TypeOK ContourOnlyInRegion Connected CentreUnique
PROPERTIES ImageGrows NewObject NothingLost
